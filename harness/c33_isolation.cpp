// C33: features that are switched off are off: settings, map data and inputs that belong only to them change nothing.
// Metamorphic: the same history through two clients that differ only in things no enabled feature uses.
#include "e2e.h"
using namespace e2e;
typedef CommonSettings C;
struct Case { World w; NavigationSettings s; std::vector<Measurement> m; bool altitude = true, orientation = true; C& c() { return s.commonSettings; } };
struct Change { const char* name; bool (*applies)(Case&); void (*apply)(G&, Case&); };
static bool knn(Case& k) { return k.c().useAlgorithm == C::UseAlgorithm::KNN; }
static bool always(Case&) { return true; }
static double any(G& g) { return g.pick({0.0, 0.1, 1.0, 2.5, 7.0, 100.0, 1e5}); }
static SensorMeasurementData* sens(Measurement& m, ST t) { auto s = boost::get<SensorMeasurementData>(&m.data); return s && s->type == t ? s : nullptr; }
static void otherValues(G& g, Case& k, ST t, double scale) { for (auto& m : k.m) if (auto s = sens(m, t)) s->values = Vector3d(g.real(-scale, scale), g.real(-scale, scale), g.real(-scale, scale)); }
static const std::vector<Change>& changes() {
  static const std::vector<Change> all = {
    {"stops off: their times and distance", [](Case& k) { return !k.c().useStops; }, [](G& g, Case& k) { k.c().stopDetectionTime = any(g); k.c().stopUpdateTime = any(g); k.c().useStopsDistanceThresholdM = any(g); }},
    {"sigma filter off: window and delta", [](Case& k) { return !k.c().useGpsSigmaFilter; }, [](G& g, Case& k) { k.c().sigmaFilterWindow = 1 + (unsigned)g.draw(20); k.c().sigmaFilterDelta = any(g); }},
    {"graph projection off: distance", [](Case& k) { return !k.c().useGraphProjection; }, [](G& g, Case& k) { k.c().graphProjDist = any(g); }},
    {"graph projection off: graph", [](Case& k) { return !k.c().useGraphProjection; }, [](G& g, Case& k) { bool add = g.boolean(); for (auto& l : k.w.L) { l.vertices.clear(); l.edges.clear(); if (add) { l.vertices = {{1, 1}, {l.W - 1, l.H - 1}}; l.edges = {{0, 1}}; } } }},
    {"smoothing off: its settings", [](Case& k) { return !k.c().useSmoothing; }, [](G& g, Case& k) { k.c().smoothing = g.real(0, 1); k.c().useAbFilter = g.boolean(); k.c().useAccuracyForSmoothing = g.boolean(); k.c().useSpeedConstraint = g.boolean(); k.c().useBarriers = g.boolean(); }},
    {"other smoother chosen: settings of the alpha-beta filter", [](Case& k) { return !k.c().useAbFilter; }, [](G& g, Case& k) { k.c().useAccuracyForSmoothing = g.boolean(); k.c().useSpeedConstraint = g.boolean(); }},
    {"barriers off: obstacles", [](Case& k) { return !k.c().useBarriers; }, [](G& g, Case& k) { bool add = g.boolean(); for (auto& l : k.w.L) { for (auto& p : l.area) p.inners.clear(); if (add) l.area[0].inners.push_back(rect(1, 1, l.W - 1, l.H - 1)); } }},
    {"strongest only off: how many", [](Case& k) { return !k.c().useClosestAps; }, [](G& g, Case& k) { k.c().numClosestAps = (unsigned)g.draw(40); }},
    {"zones: settings of the fingerprint position", [](Case& k) { return !knn(k); }, [](G& g, Case& k) { k.c().kNeighbors = 1 + (unsigned)g.draw(20); k.c().useTriangles = g.boolean(); k.c().useDiffMode = g.boolean(); k.c().minNumOfMeasurementsForPositionCalculation = (unsigned)g.draw(20); }},
    {"level by transmitters: fingerprints", [](Case& k) { return !knn(k) && !k.c().useRadiomap; }, [](G& g, Case& k) { k.c().useBestRefPointLevel = g.boolean(); bool none = g.boolean(); for (auto& l : k.w.L) { if (none) l.rps.clear(); for (auto& r : l.rps) for (auto& f : r.fp) f.second.mean = -g.real(30, 99); } }},
    {"level by fingerprints: transmitter power", [](Case& k) { return knn(k) || k.c().useRadiomap; }, [](G& g, Case& k) { k.c().useTxPower = g.boolean(); }},
    {"triangles: number of neighbours", [](Case& k) { return knn(k) && k.c().useTriangles; }, [](G& g, Case& k) { k.c().kNeighbors = 1 + (unsigned)g.draw(20); }},
    {"fingerprints: path loss model of the levels", [](Case& k) { return knn(k); }, [](G& g, Case& k) { for (auto& l : k.s.levelsSettings) { l.second.normalModeA = -g.real(40, 90); l.second.normalModeB = g.real(1, 9); } }},
    {"fingerprints: radiomap switch", [](Case& k) { return knn(k); }, [](G& g, Case& k) { k.c().useRadiomap = g.boolean(); }},
    {"settings of levels that are not mapped", always, [](G& g, Case& k) { LevelSettings l; l.normalModeA = -20; k.s.levelsSettings[LevelId("not mapped")] = l; k.s.levelsSettings[LevelId("")] = l; }},
    {"satellite fusion off: border", [](Case& k) { return !k.c().fuseGps; }, [](G& g, Case& k) { k.c().fuseGpsBorderM = any(g); }},
    {"satellites off: fusion", [](Case& k) { return !k.c().useGps; }, [](G& g, Case& k) { k.c().fuseGps = g.boolean(); k.c().fuseGpsBorderM = any(g); k.c().positionIsTooOldSec = any(g); k.c().priorDeviation = any(g); k.c().averageMovSpeed = any(g); k.c().preferIndoorSolution = g.boolean(); }},
    {"altitude switch: horizontal position", always, [](G& g, Case& k) { k.altitude = false; k.c().useAltitude = !k.c().useAltitude; k.c().wiFiRttOffset = g.real(-4, 4); }},
    {"altitude off: ranging offset, heights", [](Case& k) { return !k.c().useAltitude; }, [](G& g, Case& k) { k.c().wiFiRttOffset = g.real(-4, 4); for (auto& l : k.w.L) for (auto& t : l.txs) t.alt = g.real(-3, 8); }},
    {"ranges: horizontal position", always, [](G& g, Case& k) { k.altitude = false; for (auto& m : k.m) if (auto r = boost::get<RadioMeasurementData>(&m.data)) r->distance = g.real(0, 40); }},
    {"other signals: ranges", always, [](G& g, Case& k) { for (auto& m : k.m) if (auto r = boost::get<RadioMeasurementData>(&m.data)) if (r->type != RT::WIFI_RTT) r->distance = g.real(0, 40); }},
    {"north or east: positions", always, [](G& g, Case& k) { k.orientation = false; k.c().useEnuAzimuth = !k.c().useEnuAzimuth; }},
    {"source of the azimuth: positions", always, [](G& g, Case& k) { k.orientation = false; k.c().useCalculatedAzimuth = !k.c().useCalculatedAzimuth; k.c().deviceAzimuthLifetimeSeconds = any(g); }},
    {"azimuth from the magnetic sensors: device azimuth", [](Case& k) { return k.c().useCalculatedAzimuth; }, [](G& g, Case& k) { k.c().deviceAzimuthLifetimeSeconds = any(g); otherValues(g, k, ST::ORIENTATION, 3); }},
    {"turning sensors: positions", always, [](G& g, Case& k) { k.orientation = false; otherValues(g, k, ST::GYROSCOPE, 3); otherValues(g, k, ST::MAGNETOMETER, 50); otherValues(g, k, ST::ORIENTATION, 3); }},
    {"barometer off: pressure", [](Case& k) { return !k.c().useBarometer; }, [](G& g, Case& k) { otherValues(g, k, ST::BAROMETER, 1100); }},
    {"stops off, no action never: accelerometer", [](Case& k) { return !k.c().useStops && k.c().noActionTimeThreshold > 100000; }, [](G& g, Case& k) { k.orientation = false; otherValues(g, k, ST::ACCELEROMETER, 15); }},
    {"unmapped transmitters not used: their signals", [](Case& k) { return !k.c().useUnknownTransmitters; }, [](G& g, Case& k) { for (auto& m : k.m) if (auto r = boost::get<RadioMeasurementData>(&m.data)) if (r->id.value == "stranger") { r->rssi = -g.real(1, 120); r->type = g.pick({RT::WIFI, RT::BEACON, RT::WIFI_RTT}); if (g.boolean()) r->id = TransmitterId("stranger" + std::to_string(g.draw(3))); } }},
    {"WiFi not used: its signals", [](Case& k) { return k.c().signalsToUse == C::SignalsToUse::BLE; }, [](G& g, Case& k) { for (auto& m : k.m) if (auto r = boost::get<RadioMeasurementData>(&m.data)) if (r->type == RT::WIFI || r->type == RT::WIFI_RTT) r->rssi = -g.real(1, 120); }},
    {"Bluetooth not used: its signals", [](Case& k) { return k.c().signalsToUse == C::SignalsToUse::WIFI; }, [](G& g, Case& k) { for (auto& m : k.m) if (auto r = boost::get<RadioMeasurementData>(&m.data)) if (r->type != RT::WIFI && r->type != RT::WIFI_RTT) { r->rssi = -g.real(1, 120); r->type = g.pick({RT::BEACON, RT::BLUETOOTH, RT::EDDYSTONE}); } }},
    {"kinds of Bluetooth beacons", always, [](G& g, Case& k) { for (auto& m : k.m) if (auto r = boost::get<RadioMeasurementData>(&m.data)) if (r->type == RT::BEACON || r->type == RT::BLUETOOTH || r->type == RT::EDDYSTONE) r->type = g.pick({RT::BEACON, RT::BLUETOOTH, RT::EDDYSTONE}); }},
    {"ranging measurements wanted: cut-off", [](Case& k) { return k.c().measurementType != C::MeasurementType::RSSI; }, [](G& g, Case& k) { k.c().sigCutOffRss = -g.real(20, 100); k.c().measurementType = g.pick({C::MeasurementType::DISTANCE_V1, C::MeasurementType::DISTANCE_V2}); }},
    {"no fingerprints: sending power stated in signals", [](Case& k) { return !knn(k) && !k.c().useRadiomap; }, [](G& g, Case& k) { for (auto& m : k.m) if (auto r = boost::get<RadioMeasurementData>(&m.data)) r->power = g.real(-90, 10); }},
    {"stated spread of a range", always, [](G& g, Case& k) { for (auto& m : k.m) if (auto r = boost::get<RadioMeasurementData>(&m.data)) r->stddev = g.real(0, 9); }},
    {"fingerprints: places and models of the transmitters", [](Case& k) { return knn(k); }, [](G& g, Case& k) { k.altitude = false; for (auto& l : k.w.L) for (auto& t : l.txs) { t.x = g.real(0, l.W); t.y = g.real(0, l.H); t.A = -g.real(20, 90); t.B = g.real(1, 6); t.power = -g.real(0, 90); } }},
    {"zones: sending power of the transmitters, power not used", [](Case& k) { return !knn(k) && !k.c().useRadiomap && !k.c().useTxPower; }, [](G& g, Case& k) { for (auto& l : k.w.L) for (auto& t : l.txs) t.power = -g.real(0, 90); }},
    {"window shift of zero or beyond the averaging time", [](Case& k) { return (!k.c().useSmoothing || k.c().useAbFilter) && (k.c().sigWindowShift == 0 || k.c().sigWindowShift >= k.c().sigAveragingTime); }, [](G& g, Case& k) { k.c().sigWindowShift = g.boolean() ? 0 : k.c().sigAveragingTime * g.pick({1, 2, 100}); }},
    {"particle settings", always, [](G& g, Case& k) { auto& c = k.c(); c.numParticles = (unsigned)g.draw(2000); c.minMsrNumForMutation = (unsigned)g.draw(9); c.resamplingThreshold = any(g); c.minNumParticlesAlive = (unsigned)g.draw(900); c.gyroNoiseDegree = any(g); c.stepNoiseDeviationMeters = any(g); c.useProjectionToWhiteArea = g.boolean(); c.numParticlesAroundClosestAp = (unsigned)g.draw(99); c.numParticlesToMutate = (unsigned)g.draw(99); c.numSamplingAttempts = (unsigned)g.draw(99); c.numInitializationAttempts = (unsigned)g.draw(99); c.useUniformSampling = g.boolean(); c.lklCorrectionNoise = any(g); }},
    {"length of a step: positions", always, [](G& g, Case& k) { k.c().stepMultiplier = any(g); }},
  };
  return all;
}
static void isolation(G& g) {
  Case a; a.w = genWorld(g); a.s = genSettings(g, a.w);
  auto& c = a.c();
  c.signalsToUse = g.pick({C::SignalsToUse::BOTH, C::SignalsToUse::BLE, C::SignalsToUse::BLE, C::SignalsToUse::WIFI});
  if (g.chance(1, 10)) { c.measurementType = C::MeasurementType::DISTANCE_V1; c.signalsToUse = C::SignalsToUse::BOTH; }
  if (g.chance(1, 4)) { c.useStops = false; c.noActionTimeThreshold = 1000000; }
  c.useSmoothing = g.boolean(); c.useGps = g.chance(2, 3);
  StreamOpt so; so.steps = g.chance(1, 4);
  a.m = genStream(g, a.w, so);
  if (c.measurementType != C::MeasurementType::RSSI || c.signalsToUse == C::SignalsToUse::WIFI) for (auto& m : a.m) if (auto r = boost::get<RadioMeasurementData>(&m.data)) if (g.chance(2, 3)) r->type = g.chance(1, 2) || c.measurementType != C::MeasurementType::RSSI ? RT::WIFI_RTT : RT::WIFI;
  if (a.m.empty()) g.discard();
  Case b = a; int n = 0; bool all = g.chance(1, 4); std::string names;
  const auto& ch = changes();
  size_t first = g.draw(ch.size() - 1);   // one for certain, others besides
  for (size_t i = 0; i < ch.size(); i++) if ((i == first || (all ? g.chance(2, 3) : g.chance(1, 30))) && ch[i].applies(a)) { ch[i].apply(g, b); n++; names += std::string(n > 1 ? "; " : "") + ch[i].name; g.label(ch[i].name); }
  if (!n) g.discard();
  note(g, a.w); NOTE(g, show(a.s) << " | changed: " << names);
  auto x = run(collect(a.w), a.s, a.m), y = run(collect(b.w), b.s, b.m);
  note(g, a.m, x);
  REQUIRE("number of outputs", x.size() == y.size(), x.size() << " outputs became " << y.size() << " (" << names << ")");
  int ok = 0; std::set<std::pair<double, double>> places;
  for (size_t i = 0; i < x.size(); i++) {
    auto& p = x[i]; auto& q = y[i];
    auto txt = [&] { std::ostringstream o; o << "message " << i << " (" << show(a.m[i]) << "): " << show(p) << " became " << show(q) << " (" << names << ")"; return o.str(); };
    REQUIRE("status", p.status == q.status, txt());
    if (p.status != NavigationStatus::OK) continue;
    ok++; places.insert({p.posLatitude, p.posLongitude});
    REQUIRE("level", p.posLevel == q.posLevel, txt());
    REQUIRE("provider", p.provider == q.provider, txt());
    REQUIRE("position", std::fabs(p.posLatitude - q.posLatitude) < 1e-9 && std::fabs(p.posLongitude - q.posLongitude) < 1e-9, txt());
    REQUIRE("radius", pbt::close(p.posR, q.posR, 1e-9), txt());
    if (b.altitude) REQUIRE("altitude", pbt::close(p.posAltitude, q.posAltitude, 1e-9), txt());
    if (b.orientation) REQUIRE("orientation", std::fabs(std::remainder(p.posOrientation - q.posOrientation, 2 * PI_)) < 1e-9, txt());
  }
  g.nontrivial(ok >= 3 && places.size() > 1);
}
static std::vector<pbt::Sub> subs() { return {{"isolation", isolation, 16000, 300000}}; }
PBT_MAIN(subs)
