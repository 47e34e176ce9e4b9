// Generated worlds, settings and message streams for whole-client properties.
#pragma once
#include "mapgen.h"
#include "post_model.h"
#include <navigine/navigation-core/navigation_client.h>
#include <navigine/navigation-core/navigation_settings.h>
namespace e2e {
using namespace mg;
using pm::Area;
typedef SensorMeasurementData::Type ST;
typedef RadioMeasurementData::Type RT;
struct World { std::vector<LevelSpec> L; };
inline double sim(const TxSpec& t, double x, double y) { return t.A - t.B * std::log(std::max(0.5, std::hypot(x - t.x, y - t.y))); }
inline const LevelSpec* find(const World& w, const std::string& id) { for (auto& l : w.L) if (l.id == id) return &l; return nullptr; }

struct WorldOpt { int maxLevels = 3; bool sameFrame = false; bool disjoint = false; };
inline World genWorld(G& g, WorldOpt o = WorldOpt()) {
  World w;
  int nl = 1 + (int)g.draw(o.maxLevels - 1); Namer name(g); bool big = g.chance(1, 100);
  if (big && o.maxLevels > 2 && g.boolean()) nl = 10;
  double dlat = o.disjoint ? 0.002 : g.pick({0.0, 0.0, 0.0001, 0.001}), dlon = o.disjoint ? 0.003 : g.pick({0.0, 0.0, 0.0001, 0.002});
  if (o.sameFrame) dlat = dlon = 0;
  for (int i = 0; i < nl; i++) {
    LevelSpec l;
    l.id = name("L", i); l.lat0 = 50 + i * dlat; l.lon0 = 10 + i * dlon; l.altitude = 3.0 * i;
    l.W = g.pick({20.0, 40.0, 60.0}); l.H = g.pick({15.0, 30.0, 45.0});
    PolySpec p; p.outer = rect(0, 0, l.W, l.H);
    int nh = (int)g.draw(2);
    for (int k = 0; k < nh; k++) { double x = 2 + k * l.W / 2, y = 2 + (double)g.draw(6); p.inners.push_back(rect(x, y, x + 2 + g.draw(3), y + 3)); }
    l.area.push_back(p);
    if (g.chance(1, 4)) l.area.push_back({rect(l.W + 4, 1, l.W + 10, 9), {}});
    int nt = 1 + g.sized(6, 30, 60), nr = g.chance(1, 6) ? 0 : 3 + g.sized(8, 40, 60);
    if (big && i == nl - 1) { nt = 8 + (int)g.draw(6); nr = 64 + (int)g.draw(30); }
    for (int k = 0; k < nt; k++) l.txs.push_back({name("t", i, k), g.uniform(0, l.W), g.uniform(0, l.H), g.pick({2.0, 0.0, 3.0}), -55, 8, 0, g.chance(1, 12) ? TransmitterType::LOCATOR : TransmitterType::BEACON});
    for (int k = 0; k < nr; k++) {
      RpSpec r; r.id = name("r", i, k); r.x = g.uniform(0.5, l.W - 0.5); r.y = g.uniform(0.5, l.H - 0.5);
      for (auto& t : l.txs) { SignalStatistics s; s.type = TransmitterType::BEACON; s.mean = sim(t, r.x, r.y) + g.normal(); s.variance = 1; s.nMeasurements = 10; if (!g.chance(1, 10)) r.fp[t.id] = s; }
      l.rps.push_back(r);
    }
    if (g.chance(3, 4)) {
      int nv = 2 + g.sized(5, 30, 60);
      for (int k = 0; k < nv; k++) { l.vertices.push_back({g.uniform(0, l.W), g.uniform(0, l.H)}); if (k) l.edges.push_back({(int)g.draw(k - 1), k}); }
    }
    w.L.push_back(l);
  }
  if (nl > 1 && g.chance(1, 4)) { TxSpec t = w.L[0].txs[0]; w.L[1].txs.push_back(t); }   // one transmitter mapped on two levels
  return w;
}
inline std::shared_ptr<LevelCollector> collect(const World& w) { auto lc = std::make_shared<LevelCollector>(); for (auto& l : w.L) lc->addGeoLevel(toGeoLevel(l)); return lc; }
inline NavigationSettings genSettings(G& g, const World& w) {
  NavigationSettings s; auto& c = s.commonSettings;
  c.useAlgorithm = g.pick({CommonSettings::UseAlgorithm::ZONES, CommonSettings::UseAlgorithm::KNN, CommonSettings::UseAlgorithm::KNN, CommonSettings::UseAlgorithm::PF_PDR});
  c.useEnuAzimuth = g.boolean(); c.useRadiomap = g.chance(1, 4); c.useStops = g.chance(1, 3); c.stopDetectionTime = g.pick({3.0, 1.0}); c.stopUpdateTime = g.pick({4.0, 1.0, 0.0}); c.useStopsDistanceThresholdM = g.pick({10.0, 2.0, 100.0});
  c.useBestRefPointLevel = g.boolean(); c.useBarometer = g.chance(1, 3); c.useUnknownTransmitters = g.chance(1, 6);
  c.useClosestAps = g.chance(1, 5); c.numClosestAps = (unsigned)g.draw(4); c.sigAveragingTime = g.pick({1.0, 2.0, 0.5, 3.0, 0.0}); c.sigWindowShift = g.pick({0.0, 0.5, 1.0});
  c.sigCutOffRss = g.pick({-100.0, -85.0}); c.signalsToUse = g.pick({CommonSettings::SignalsToUse::BOTH, CommonSettings::SignalsToUse::BLE});
  c.kNeighbors = 1 + (unsigned)g.small(8); c.useTriangles = g.boolean(); c.useDiffMode = g.boolean(); c.minNumOfMeasurementsForPositionCalculation = (unsigned)g.draw(4);
  c.smoothing = g.pick({0.5, 0.0, 1.0, 0.2}); c.deadReckoningTime = g.pick({5.0, 2.0, 30.0}); c.graphProjDist = g.pick({5.0, 1.0, 100.0, 0.0});
  c.useSmoothing = g.chance(3, 4); c.useGraphProjection = g.chance(1, 3); c.useAccuracyForSmoothing = g.chance(1, 4); c.useSpeedConstraint = g.boolean(); c.useBarriers = g.chance(1, 3); c.useTimeSmoothing = g.chance(1, 4); c.useAbFilter = g.chance(3, 4);
  c.useAltitude = g.chance(1, 6); c.useGps = g.chance(3, 4); c.useInstantGpsPosition = g.chance(1, 8); c.preferIndoorSolution = g.chance(1, 6); c.fuseGps = g.boolean(); c.useGpsOutsideMap = g.chance(1, 6); c.useGpsSigmaFilter = g.chance(1, 4); c.sigmaFilterWindow = 1 + (unsigned)g.draw(3); c.sigmaFilterDelta = g.pick({0.0, 2.0, 10.0}); c.minNumSats = (unsigned)g.pick({0, 5, 20});
  c.priorDeviation = g.pick({50.0, 5.0}); c.minGpsDeviation = g.pick({5.0, 1.0}); c.maxGpsDeviation = g.pick({std::numeric_limits<double>::infinity(), 30.0}); c.fuseGpsBorderM = g.pick({10.0, 0.0, 50.0}); c.averageMovSpeed = g.pick({1.0, 3.0, 0.0});
  c.noSignalTimeThreshold = g.pick({35LL, 3LL, 10LL}); c.noActionTimeThreshold = g.pick({20LL, 2LL}); c.positionIsTooOldSec = g.pick({20.0, 3.0}); c.gpsValidTimeWindowSec = g.pick({1.0, 5.0});
  c.useCalculatedAzimuth = g.chance(1, 3); c.deviceAzimuthLifetimeSeconds = g.pick({10.0, 1.0}); c.hasAccelerometer = !g.chance(1, 8); c.hasGyroscope = !g.chance(1, 8);
  for (auto& l : w.L) s.levelsSettings[LevelId(l.id)] = LevelSettings();
  return s;
}
inline std::string show(const NavigationSettings& s) {
  auto& c = s.commonSettings; std::ostringstream o;
  o << (c.useAlgorithm == CommonSettings::UseAlgorithm::KNN ? "knn" : "zones") << " avg " << c.sigAveragingTime << " shift " << c.sigWindowShift;
  auto f = [&](const char* n, bool b) { if (b) o << " " << n; };
  f("enu", c.useEnuAzimuth); f("radiomap", c.useRadiomap); f("stops", c.useStops); f("barometer", c.useBarometer); f("unknownTx", c.useUnknownTransmitters); f("closest", c.useClosestAps); f("smoothing", c.useSmoothing); f("ab", c.useAbFilter); f("accuracy", c.useAccuracyForSmoothing); f("barriers", c.useBarriers); f("timeSmoothing", c.useTimeSmoothing); f("graph", c.useGraphProjection); f("gps", c.useGps); f("instantGps", c.useInstantGpsPosition); f("preferIndoor", c.preferIndoorSolution); f("fuse", c.fuseGps); f("outsideMap", c.useGpsOutsideMap); f("sigma", c.useGpsSigmaFilter); f("altitude", c.useAltitude); f("calcAzimuth", c.useCalculatedAzimuth);
  o << " noSignal " << c.noSignalTimeThreshold << " deadReckoning " << c.deadReckoningTime << " graphDist " << c.graphProjDist;
  return o.str();
}
inline Measurement radio(long long ts, const std::string& id, double rssi, RT type = RT::BEACON, double dist = 0, double power = 0) { RadioMeasurementData d; d.type = type; d.id = TransmitterId(id); d.rssi = rssi; d.distance = dist; d.power = power; Measurement m; m.ts = ts; m.data = d; return m; }
inline Measurement sensor(long long ts, ST t, double x, double y, double z) { SensorMeasurementData d; d.type = t; d.values = Vector3d(x, y, z); Measurement m; m.ts = ts; m.data = d; return m; }
inline Measurement nmea(long long ts, int sent, int sats) { NmeaMeasurementData d; d.sentenceNumber = sent; d.satellitesNumber = sats; Measurement m; m.ts = ts; m.data = d; return m; }
inline std::string show(const Measurement& m) {
  std::ostringstream o; o << std::setprecision(10) << m.ts << " ";
  if (auto r = boost::get<RadioMeasurementData>(&m.data)) o << "radio" << (int)r->type << " '" << r->id.value << "' " << r->rssi << " dB " << r->distance << " m";
  else if (auto s = boost::get<SensorMeasurementData>(&m.data)) { static const char* n[] = {"acc", "mag", "gyro", "baro", "location", "orientation"}; o << ((int)s->type < 6 ? n[(int)s->type] : "?") << " " << s->values.x << " " << s->values.y << " " << s->values.z; }
  else { auto n = boost::get<NmeaMeasurementData>(&m.data); o << "nmea " << n->sentenceNumber << "/" << n->satellitesNumber; }
  return o.str();
}
inline std::string show(const NavigationOutput& o) {
  std::ostringstream s; s << std::setprecision(12);
  if (o.status != NavigationStatus::OK) { s << "error " << (int)o.status; return s.str(); }
  s << "level '" << o.posLevel.value << "' " << o.posLatitude << "," << o.posLongitude << " alt " << o.posAltitude << " r " << o.posR << " orientation " << o.posOrientation << " provider " << (int)o.provider;
  return s.str();
}
struct StreamOpt { int maxTicks = 60; bool unknown = true; bool sensors = true; bool location = true; bool silence = true; bool steps = false; bool pauses = false; };
// a person walking over the levels, with every message kind; time ordered
inline std::vector<Measurement> genStream(G& g, const World& w, StreamOpt o = StreamOpt()) {
  std::vector<Measurement> r;
  long long ts = g.pick({100000LL, 1700000000000LL});
  size_t lv = g.draw(w.L.size() - 1);
  pm::Walk p{g.real(0, w.L[lv].W), g.real(0, w.L[lv].H)};
  int n = 2 + g.sized(o.maxTicks, 4 * o.maxTicks, 100), quiet = 0, few = 0; double pressure = 1000, phase = 0;
  int use = (int)g.draw(7);   // which kinds appear at all
  bool steps = o.sensors && (o.steps || g.chance(1, 4)); double gait = 0;   // an accelerometer at 25 Hz while walking
  for (int i = 0; i < n; i++) {
    long long dt = g.pick({500LL, 200LL, 1000LL, 1100LL, 50LL});
    if (o.silence && g.chance(1, 15)) dt = g.chance(1, 8) ? farGap(g) : g.pick({2500LL, 6000LL, 12000LL, 36000LL});
    const long long full = dt;
    if (steps && p.mode == 1 && dt <= 2500) for (long long e = ts + dt; ts + 40 < e;) { ts += 40; dt -= 40; gait += 2 * PI_ * 40 / 560; r.push_back(sensor(ts, ST::ACCELEROMETER, 0.1, 0.1, 9.8 + 3.2 * std::sin(gait))); }
    if (o.pauses && g.chance(1, 12)) { ts += g.pick({2500LL, 4000LL, 7000LL}); few = 2 + g.small(8); }   // stands still unheard, then little is heard
    ts += dt;
    p.step(g, std::min(full, 2000LL) / 1000.0, w.L[lv].W, w.L[lv].H);
    if (g.chance(1, 15)) lv = g.draw(w.L.size() - 1);
    const LevelSpec& l = w.L[lv];
    if (quiet > 0) quiet--; else if (o.silence && g.chance(1, 20)) quiet = g.small(10);
    if (few > 0) few--; else if (g.chance(1, 20) || (full > 2500 && g.chance(1, 2))) few = g.small(8);   // only one transmitter in range
    if (quiet == 0) for (auto& t : l.txs) if (few > 0 ? &t == &l.txs[0] : g.chance(3, 4)) r.push_back(radio(ts, t.id, std::min(-1.0, sim(t, p.x, p.y) + 2 * g.normal()), g.chance(1, 10) ? g.pick({RT::WIFI, RT::WIFI, RT::BLUETOOTH, RT::EDDYSTONE}) : RT::BEACON));
    if (g.chance(1, 8)) { auto& q = g.pick(w.L); auto& t = g.pick(q.txs); r.push_back(radio(ts, t.id, -70 - (double)g.draw(30), g.chance(1, 6) ? RT::WIFI_RTT : RT::BEACON, g.real(1, 20))); }
    if (o.unknown && g.chance(1, 8)) r.push_back(radio(ts, "stranger", g.pick({-50.0, -99.0, 0.0})));
    if (o.location && (use & 1) && g.chance(1, 3)) { double a, b; toGeo(l.lat0, l.lon0, p.x + 3 * g.normal(), p.y + 3 * g.normal(), a, b); if (g.chance(1, 8)) { a += 0.01; } r.push_back(sensor(ts, ST::LOCATION, a, b, g.pick({3.0, 8.0, 20.0, 60.0}))); }
    if (o.location && (use & 1) && g.chance(1, 10)) r.push_back(nmea(ts, g.pick({1, 2}), g.pick({0, 3, 25})));
    if (o.sensors && (use & 2)) {
      int k = 1 + (int)g.draw(3);
      for (int j = 0; j < k; j++) {
        phase += 1.3; long long t = ts + j * std::max(1LL, std::min(dt, 200LL) / 5);
        r.push_back(sensor(t, ST::ACCELEROMETER, 0.3, 0.2, 9.8 + (p.mode == 1 ? 3 : 0.05) * std::sin(phase)));
        if (g.chance(1, 2)) r.push_back(sensor(t, ST::GYROSCOPE, 0.01, 0, g.real(-1, 1)));
        if (g.chance(1, 3)) r.push_back(sensor(t, ST::MAGNETOMETER, 20 * std::cos(phase / 50), 20 * std::sin(phase / 50), -40));
        if (g.chance(1, 4)) r.push_back(sensor(t, ST::ORIENTATION, g.real(-3, 3), 0.1, 0.1));
        if (t > ts) ts = t;
      }
    }
    if (o.sensors && (use & 4)) { pressure = 1000 - 0.35 * (double)lv; r.push_back(sensor(ts, ST::BAROMETER, pressure + 0.01 * g.normal(), 0, 0)); }
  }
  return r;
}
inline std::vector<NavigationOutput> run(const std::shared_ptr<LevelCollector>& lc, const NavigationSettings& s, const std::vector<Measurement>& m) { auto c = createNavigationClient(lc, s); return c->navigate(m); }
inline void note(G& g, const World& w) {
  if (!g.wantNote) return;
  for (auto& l : w.L) { std::ostringstream o; o << "level " << l.id << " " << l.W << "x" << l.H << " at " << l.lat0 << "," << l.lon0 << ", " << l.area.size() << " areas, transmitters"; for (auto& t : l.txs) o << " " << t.id << "(" << t.x << "," << t.y << ")"; o << ", " << l.rps.size() << " reference points, graph"; for (auto& v : l.vertices) o << " (" << v.first << "," << v.second << ")"; for (auto& e : l.edges) o << " " << e.first << "-" << e.second; NOTE(g, o.str()); }
}
inline void note(G& g, const std::vector<Measurement>& m, const std::vector<NavigationOutput>& o) {
  if (!g.wantNote) return;
  for (size_t i = 0; i < m.size(); i++) NOTE(g, show(m[i]) << (i < o.size() && m.size() == o.size() ? " -> " + show(o[i]) : ""));
}
}  // namespace e2e
