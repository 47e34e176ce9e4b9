// C32: a session may last as long as it likes: once every averaging window has filled, the memory held by a client (or by one of
// the standalone filters) is that of one period ago, whatever repeats in its stream.
#include "e2e.h"
#include <sanitizer/allocator_interface.h>
#include "src/sensor_fusion/pedometer.h"
#include "src/sensor_fusion/sensor_fusion.h"
#define navigation_core sa_pedometer
#include "standalone_algorithms/pedometer/include/pedometer.h"
#undef navigation_core
#define navigation_core sa_position
#include "standalone_algorithms/position_estimation/include/measurement_preprocessor.h"
#include "standalone_algorithms/position_estimation/include/nearest_transmitter_estimator.h"
#undef navigation_core
using namespace e2e;
namespace sp = navigine::sa_pedometer; namespace sn = navigine::sa_position;
static long live() { return (long)__sanitizer_get_current_allocated_bytes(); }
// one period of a stream that repeats for ever
static std::vector<Measurement> period(G& g, const World& w, long long& len, std::string& kinds) {
  std::vector<Measurement> r; long long t = 0; len = g.pick({20000LL, 5000LL, 40000LL, 1000LL});
  unsigned use = 1 + (unsigned)g.draw(254); bool idle = g.chance(1, 4);
  const char* names[] = {"radio", "acc", "gyro", "mag", "baro", "fix", "nmea", "azimuth"};
  for (int k = 0; k < 8; k++) if (use >> k & 1) kinds += std::string(kinds.empty() ? "" : "+") + names[k];
  size_t lv = g.draw(w.L.size() - 1); double x = g.real(0, w.L[lv].W), y = g.real(0, w.L[lv].H), ph = 0;
  int gap = len <= 5000 ? g.pick({40, 200, 500}) : g.pick({500, 1000, 200});
  for (; t < len; t += gap) {
    auto& l = w.L[lv];
    if (use & 1 && t % 200 == 0) for (auto& tx : l.txs) if (g.chance(2, 3)) r.push_back(radio(t, tx.id, std::min(-1.0, sim(tx, x, y) + g.normal()), g.chance(1, 10) ? RT::WIFI : RT::BEACON));
    if (use & 1 && g.chance(1, 12)) r.push_back(radio(t, "stranger" + std::to_string(g.draw(5)), -60));
    ph += 2 * PI_ * gap / 560;
    if (use & 2) r.push_back(sensor(t, ST::ACCELEROMETER, 0.1, 0.1, 9.8 + (idle ? 0 : 3.2) * std::sin(ph)));
    if (use & 4) r.push_back(sensor(t, ST::GYROSCOPE, 0.01, 0, g.real(-1, 1)));
    if (use & 8) r.push_back(sensor(t, ST::MAGNETOMETER, 20, 10, -40));
    if (use & 16) r.push_back(sensor(t, ST::BAROMETER, 1000 - 0.35 * (double)lv, 0, 0));
    if (use & 32 && (t % 1000 < gap)) { double a, b; toGeo(l.lat0, l.lon0, x + g.normal(), y + g.normal(), a, b); r.push_back(sensor(t, ST::LOCATION, a, b, g.pick({3.0, 8.0, 60.0}))); }
    if (use & 64 && (t % 1000 < gap)) r.push_back(nmea(t, g.pick({1, 2}), g.pick({0, 3, 25})));
    if (use & 128) r.push_back(sensor(t, ST::ORIENTATION, g.real(-3, 3), 0.1, 0.1));
    if (g.chance(1, 20)) { lv = g.draw(w.L.size() - 1); }
    x = std::min(w.L[lv].W, std::max(0.0, x + g.real(-1, 1))); y = std::min(w.L[lv].H, std::max(0.0, y + g.real(-1, 1)));
  }
  return r;
}
// f feeds period i; the memory held after the later half of the periods must not exceed that of the former
template <class F> static void steady(G& g, size_t perPeriod, F f) {
  int warm = (int)std::max<size_t>(12, 3000 / std::max<size_t>(1, perPeriod)), more = warm;
  long base = live(), top = 0, end = 0;
  for (int i = 0; i < warm; i++) { f(i); if (i >= warm / 2) top = std::max(top, live() - base); }
  for (int i = warm; i < warm + more; i++) { f(i); end = live() - base; if (end <= top && i >= warm + more / 2) break; }
  NOTE(g, perPeriod << " messages in a period: at most " << top << " bytes held after " << warm << " periods, " << end << " after " << warm + more);
  REQUIRE("memory", end <= top + 3000, "after " << warm << " periods of " << perPeriod << " messages " << top << " bytes were held, after " << warm + more << " still " << end);
  g.label("much held", top > 20000);
}
static void client(G& g) {
  WorldOpt wo; World w = genWorld(g, wo); NavigationSettings s = genSettings(g, w);
  s.commonSettings.useStops = false;   // standing in stop mode averages over everything since the stop
  if (s.commonSettings.sigAveragingTime == 0 && g.boolean()) s.commonSettings.sigAveragingTime = 1;
  long long len; std::string kinds; auto p = period(g, w, len, kinds); if (p.empty()) g.discard();
  note(g, w); NOTE(g, show(s)); NOTE(g, kinds << ", period " << len << " ms");
  auto lc = collect(w); auto cl = createNavigationClient(lc, s); long long t0 = 1000000; int ok = 0; bool single = g.chance(1, 3);
  if (!single && p.size() > 4 && g.chance(1, 3)) {   // some messages of every batch are late and must be skipped
    size_t k = 1 + g.draw(std::min<size_t>(p.size() / 3, 30)); long long by = g.pick({1LL, 300LL, 5000LL});
    for (size_t i = 0; i < k; i++) { size_t at = 1 + g.draw(p.size() - 2); Measurement m = p[g.draw(p.size() - 1)]; long long last = p[at - 1].ts; for (size_t j = 0; j < at; j++) last = std::max(last, p[j].ts); m.ts = last - by; p.insert(p.begin() + at, m); }
    NOTE(g, k << " late messages in every batch"); g.label("late messages");
  }
  steady(g, p.size(), [&](int i) {
    std::vector<Measurement> m = p; for (auto& x : m) x.ts += t0 + i * len;
    if (single) { for (auto& x : m) for (auto& o : cl->navigate({x})) ok += o.status == NavigationStatus::OK; }
    else { std::cerr.setstate(std::ios::failbit); auto out = cl->navigate(m); std::cerr.clear(); for (auto& o : out) ok += o.status == NavigationStatus::OK; }
  });
  g.nontrivial(ok > 10 || p.size() > 50); g.label("position", ok > 0);
}
static void pedometers(G& g) {
  Pedometer a; sp::Pedometer b; SensorFusion f{NavigationSettings()}; int dt = g.pick({20, 100, 200, 40}), n = 5000 / dt; double amp = g.pick({3.2, 0.0, 9.0}); int way = (int)g.draw(2), jitter = g.boolean() ? dt / 2 : 0; size_t steps = 0;
  std::vector<int> at; for (int i = 0; i < n; i++) at.push_back(i * dt + (jitter ? (int)g.draw(jitter) : 0));
  NOTE(g, "accelerometer every " << dt << " ms, amplitude " << amp << ", " << (way == 0 ? "core" : way == 1 ? "standalone" : "sensor fusion"));
  steady(g, n, [&](int p) {
    for (int i = 0; i < n; i++) {
      long long ts = 1000 + p * 5000LL + at[i]; double z = 9.8 + amp * std::sin(2 * PI_ * at[i] / 625.0);
      SensorMeasurement m; m.ts = ts; m.data.type = ST::ACCELEROMETER; m.data.values = Vector3d(0, 0, z);
      if (way == 0) { a.update(m); steps += a.calculateSteps().size(); }
      else if (way == 1) { sp::SensorMeasurement q; q.ts = ts; q.values = sp::Vector3d(0, 0, z); b.update({q}); steps += b.calculateSteps().size(); }
      else steps += f.calculateDisplacement(m, ts).distance > 0;
    }
  });
  g.nontrivial(); g.label("steps", steps > 5);
}
static void nearest(G& g) {
  double avg = g.pick({3.0, 1.0, 5.0}), shift = g.pick({2.0, 0.0, 1.0, 9.0}); bool wifi = g.boolean(), ble = !wifi || g.boolean(); int ids = 1 + (int)g.draw(8), n = 1 + (int)g.draw(60), len = g.pick({1000, 5000}), known = (int)g.draw(ids);
  sn::MeasurementsPreprocessor pp(avg, shift, wifi, ble); sn::Transmitters map; for (int i = 0; i < known; i++) { sn::Transmitter t; t.id = "t" + std::to_string(i); t.x = i; t.y = 2 * i; map.push_back(t); }
  sn::NearestTransmitterPositionEstimator est(map);
  std::vector<sn::RadioMeasurement> p; for (int i = 0; i < n; i++) { sn::RadioMeasurement m; m.id = "t" + std::to_string(g.draw(ids)); m.ts = (long long)len * i / n; m.rssi = -(double)g.range(30, 105); m.distance = 3; m.type = g.chance(1, 3) ? sn::RadioMeasurement::Type::WIFI : sn::RadioMeasurement::Type::BEACON; p.push_back(m); }
  NOTE(g, "averaging " << avg << " shift " << shift << ", " << n << " readings in " << len << " ms of " << ids << " transmitters, " << known << " known"); size_t got = 0;
  steady(g, n, [&](int k) { for (auto m : p) { m.ts += 1000 + (long long)k * len; pp.update(m); auto r = pp.extractRadioMeasurements(); if (!r.empty()) got += !est.calculatePosition(r).isEmpty; } });
  g.nontrivial(); g.label("position", got > 0);
}
static std::vector<pbt::Sub> subs() { return {{"client", client, 1500, 30000}, {"pedometers", pedometers, 400, 8000}, {"nearest", nearest, 800, 16000}}; }
PBT_MAIN(subs)
