// C18: the whole client on wild maps, settings and message streams: no crash, hang, exception, undefined behaviour;
// one output per accepted message.
#include "e2e.h"
using namespace e2e;
static double wild(G& g) {
  switch (g.draw(9)) {
    case 0: return 0;
    case 1: return g.pick({1.0, -1.0, 0.5, -0.0});
    case 2: return g.pick({1e-300, -1e-300, 5e-324, 1e-16});
    case 3: return g.pick({1e9, -1e9, 4294967296.0, -2147483649.0});
    case 4: return g.pick({1e18, -1e18, 9.3e18, 1e100, -1e100});
    case 5: return g.pick({1.7e308, -1.7e308, 1e154, -1.4e154});
    case 6: return g.pick({360.0, 180.0, 90.0, -90.0, -180.0, 3.141592653589793, -3.141592653589793});
    default: return g.real(-100, 100);
  }
}
static double geoLat(G& g) { return g.chance(1, 6) ? g.pick({90.0, -90.0, 0.0, 89.99999999}) : g.real(-90, 90); }
static double geoLon(G& g) { return g.chance(1, 6) ? g.pick({180.0, -180.0, 0.0, 179.99999999}) : g.real(-180, 180); }
static std::string anyId(G& g, const std::vector<std::string>& ids) { return g.chance(1, 8) || ids.empty() ? g.pick({std::string(""), std::string("x"), std::string("(1,2,3)")}) : g.pick(ids); }
// levels with any degenerate content
static std::vector<GeoLevel> wildMap(G& g, std::vector<std::string>& ids, std::vector<XY>& spots) {
  std::vector<GeoLevel> out;
  int nl = (int)g.draw(3);
  double clat = geoLat(g), clon = geoLon(g);
  double size = g.pick({0.0003, 0.0003, 0.01, 0.0, 10.0});
  auto lat = [&] { return g.chance(1, 30) ? geoLat(g) : std::max(-90.0, std::min(90.0, clat + g.pick({1.0, 1.0, 0.5, 0.0}) * size * g.real(-1, 1))); };
  auto lon = [&] { return g.chance(1, 30) ? geoLon(g) : std::max(-180.0, std::min(180.0, clon + g.pick({1.0, 1.0, 0.5, 0.0}) * size * g.real(-1, 1))); };
  for (int i = 0; i < nl; i++) {
    GeoLevel l;
    l.id = LevelId(i == 1 && g.chance(1, 8) ? std::string("") : "L" + std::to_string(i));   // identifiers are unique
    l.altitude = g.chance(1, 4) ? wild(g) : 3.0 * i;
    std::list<Polygon> polys;
    int np = g.weighted({2, 6, 2});
    for (int k = 0; k < np; k++) {
      Polygon p;
      if (g.chance(2, 3)) {   // a rectangle around the centre
        double a = clat - size, b = clat + size, c = clon - size, d = clon + size;
        a = std::max(-90.0, a); b = std::min(90.0, b); c = std::max(-180.0, c); d = std::min(180.0, d);
        p.outer() = {Point(a, c), Point(a, d), Point(b, d), Point(b, c), Point(a, c)};
        if (g.chance(1, 3)) p.inners().push_back({Point(clat, clon), Point(clat, clon + size / 3), Point(clat + size / 3, clon), Point(clat, clon)});
      } else { int m = (int)g.draw(6); for (int q = 0; q < m; q++) p.outer().push_back(Point(lat(), lon())); if (g.chance(1, 4)) p.inners().push_back({}); }
      polys.push_back(p);
    }
    if (!(g.chance(1, 6))) l.geometry = getGeometry(polys);
    int nt = g.small(6);
    for (int k = 0; k < nt; k++) {
      std::string id = g.chance(1, 12) ? (ids.empty() ? std::string("") : g.pick(ids)) : "t" + std::to_string(i) + "_" + std::to_string(k);
      ids.push_back(id);
      PathlossModel pm{g.chance(1, 5) ? wild(g) : -55, g.chance(1, 5) ? wild(g) : 8, g.chance(1, 5) ? wild(g) : -59};
      double a = lat(), b = lon(); spots.push_back({a, b});
      l.transmitters.emplace_back(TransmitterId(id), GeoPoint3D(a, b, g.chance(1, 6) ? wild(g) : 2), pm, g.pick({TransmitterType::BEACON, TransmitterType::WIFI, TransmitterType::LOCATOR, TransmitterType::EDDYSTONE, TransmitterType::UNKNOWN, TransmitterType::BLUETOOTH}));
    }
    int nr = g.chance(1, 3) ? 0 : g.small(12);
    for (int k = 0; k < nr; k++) {
      std::map<TransmitterId, SignalStatistics> fp;
      int nf = (int)g.draw(6);
      for (int q = 0; q < nf; q++) { SignalStatistics s; s.type = g.pick({TransmitterType::BEACON, TransmitterType::WIFI}); s.mean = g.chance(1, 10) ? wild(g) : -g.real(30, 100); s.variance = g.chance(1, 6) ? wild(g) : 1; s.nMeasurements = g.chance(1, 8) ? 0 : 10; fp[TransmitterId(anyId(g, ids))] = s; }
      double a = lat(), b = lon(); spots.push_back({a, b});
      l.referencePoints.emplace_back(ReferencePointId(g.chance(1, 10) ? std::string("") : "r" + std::to_string(k)), GeoPoint(a, b), fp);
    }
    int nv = g.small(6);
    for (int k = 0; k < nv; k++) l.graph.addVertex(GeoPoint(lat(), lon()));
    if (nv) for (int k = 0; k < nv; k++) if (g.chance(2, 3)) l.graph.addEdge((int)g.draw(nv - 1), (int)g.draw(nv - 1));   // loops and duplicates included
    out.push_back(l);
  }
  return out;
}
static unsigned wildCount(G& g) { return g.pick({0u, 1u, 2u, 4u, 1000u, 4294967295u}); }
static double wildTime(G& g) { return g.pick({0.0, 1.0, 0.001, 0.0004, -1.0, 3.0, 1e6, 1e-9}); }
static double wildLen(G& g) { return g.pick({0.0, 1.0, 10.0, -5.0, 1e-12, 1e9, 1e300}); }
static NavigationSettings wildSettings(G& g, const std::vector<std::string>& levels) {
  World none; NavigationSettings s = genSettings(g, none); auto& c = s.commonSettings;
  auto m = [&] { return g.chance(1, 5); };
  if (m()) c.sigAveragingTime = wildTime(g);
  if (m()) c.sigWindowShift = wildTime(g);
  if (m()) c.stopDetectionTime = wildTime(g);
  if (m()) c.stopUpdateTime = wildTime(g);
  if (m()) c.deadReckoningTime = wildTime(g);
  if (m()) c.positionIsTooOldSec = wildTime(g);
  if (m()) c.gpsValidTimeWindowSec = wildTime(g);
  if (m()) c.deviceAzimuthLifetimeSeconds = wildTime(g);
  if (m()) c.noSignalTimeThreshold = g.pick({0LL, -1LL, 1LL, 1000000000LL});
  if (m()) c.noActionTimeThreshold = g.pick({0LL, -1LL, 1LL, 1000000000LL});
  if (m()) c.kNeighbors = wildCount(g);
  if (m()) c.numClosestAps = wildCount(g);
  if (m()) c.minNumOfMeasurementsForPositionCalculation = wildCount(g);
  if (m()) c.sigmaFilterWindow = g.pick({0u, 1u, 2u, 7u});
  if (m()) c.minNumSats = wildCount(g);
  if (m()) c.sigCutOffRss = g.pick({0.0, 10.0, -1e300, 1e300});
  if (m()) c.smoothing = g.pick({-1.0, 2.0, 1e9, -1e300});
  if (m()) c.graphProjDist = wildLen(g);
  if (m()) c.useStopsDistanceThresholdM = wildLen(g);
  if (m()) c.priorDeviation = wildLen(g);
  if (m()) c.minGpsDeviation = wildLen(g);
  if (m()) c.maxGpsDeviation = wildLen(g);
  if (m()) c.fuseGpsBorderM = wildLen(g);
  if (m()) c.averageMovSpeed = wildLen(g);
  if (m()) c.sigmaFilterDelta = wildLen(g);
  if (m()) c.minDeviationM = wildLen(g);
  if (m()) c.stepMultiplier = wildLen(g);
  if (m()) c.wiFiRttOffset = wildLen(g);
  c.measurementType = g.pick({CommonSettings::MeasurementType::RSSI, CommonSettings::MeasurementType::RSSI, CommonSettings::MeasurementType::DISTANCE_V1, CommonSettings::MeasurementType::DISTANCE_V2});
  c.useTracking = g.chance(1, 6);
  c.useAlgorithm = g.pick({CommonSettings::UseAlgorithm::KNN, CommonSettings::UseAlgorithm::ZONES, CommonSettings::UseAlgorithm::KNN, CommonSettings::UseAlgorithm::GRAPH, CommonSettings::UseAlgorithm::PF_NOPDR});
  c.useAltitude = g.chance(1, 3);
  for (auto& l : levels) if (g.chance(2, 3)) { LevelSettings q; if (m()) q.normalModeA = wild(g); if (m()) q.normalModeB = g.pick({0.0, -3.0, 1e-300, 1e300}); s.levelsSettings[LevelId(l)] = q; }
  return s;
}
static std::vector<Measurement> wildStream(G& g, const std::vector<std::string>& ids, const std::vector<XY>& spots) {
  std::vector<Measurement> r;
  long long ts = g.pick({0LL, 1LL, 100000LL, 1700000000000LL, 1000000000000000LL});
  int n = g.small(120); double base = -g.real(40, 95);
  double odds = g.pick({0.0, 0.05, 0.3});
  auto val = [&](double usual) { return odds > 0 && g.chance(odds > 0.1 ? 3 : 1, odds > 0.1 ? 10 : 20) ? wild(g) : usual; };
  double phase = 0;
  for (int i = 0; i < n; i++) {
    switch (g.draw(7)) { case 0: case 1: break; case 2: ts += 1; break; case 3: ts += 40; break; case 4: ts += (long long)g.draw(1200); break; case 5: ts += (long long)g.draw(3000); break; case 6: ts += g.chance(1, 4) ? (long long)g.draw(100000) : 20; break; default: if (g.chance(1, 8)) ts += g.pick({1000000000LL, 1000000000000LL, 3600000LL}); }
    long long t = g.chance(1, 40) ? std::max(0LL, ts - (long long)g.draw(5000)) : ts;   // a late message
    switch (g.weighted({10, 6, 3, 3, 2, 3, 2, 1})) {
      case 0: { int k = 1 + (int)g.draw(4); for (int j = 0; j < k; j++) r.push_back(radio(t, anyId(g, ids), val(base + g.real(-10, 10)), g.pick({RT::BEACON, RT::BEACON, RT::WIFI, RT::WIFI_RTT, RT::BLUETOOTH, RT::EDDYSTONE}), val(g.real(0, 20)), val(-59))); break; }
      case 1: phase += 0.7; r.push_back(sensor(t, ST::ACCELEROMETER, val(0.1), val(0.2), val(9.8 + 3 * std::sin(phase)))); break;
      case 2: r.push_back(sensor(t, ST::GYROSCOPE, val(0.1), val(-0.1), val(g.real(-2, 2)))); break;
      case 3: r.push_back(sensor(t, ST::MAGNETOMETER, val(20), val(g.real(-30, 30)), val(-40))); break;
      case 4: r.push_back(sensor(t, ST::BAROMETER, val(1000), val(0), val(0))); break;
      case 5: { XY p = spots.empty() ? XY(geoLat(g), geoLon(g)) : g.pick(spots); r.push_back(sensor(t, ST::LOCATION, val(p.first + g.pick({0.0, 0.00003})), val(p.second + g.pick({0.0, -0.00005})), val(g.real(1, 30)))); break; }
      case 6: r.push_back(nmea(t, g.pick({1, 2, 0, -1, 2147483647}), g.pick({0, 5, 30, -1, 2147483647, -2147483647 - 1}))); break;
      default: r.push_back(g.boolean() ? sensor(t, ST::ORIENTATION, val(g.real(-3, 3)), val(0.1), val(0.2)) : sensor(t, ST::NONE, val(1), val(2), val(3)));
    }
  }
  return r;
}
// runs the stream in batches; late messages of a batch give no output
static void drive(G& g, const std::shared_ptr<LevelCollector>& lc, const NavigationSettings& s, const std::vector<Measurement>& m, int batches) {
  auto client = createNavigationClient(lc, s);
  size_t at = 0, outputs = 0, positions = 0;
  for (int b = 0; b < batches; b++) {
    size_t end = b + 1 == batches ? m.size() : at + g.draw(m.size() - at);
    std::vector<Measurement> part(m.begin() + at, m.begin() + end);
    long long top = std::numeric_limits<long long>::min(); size_t accepted = 0;
    for (auto& q : part) if (q.ts >= top) { top = q.ts; accepted++; }
    auto out = client->navigate(part);
    REQUIRE("one output per message", out.size() == accepted, "batch of " << part.size() << " messages (" << accepted << " in order) gave " << out.size() << " outputs");
    for (auto& o : out) if (o.status == NavigationStatus::OK) positions++;
    outputs += out.size(); at = end;
  }
  g.label("positions", positions > 0);
  g.nontrivial(outputs > 0 && (positions > 0 || outputs > 20));
}
static void wildAll(G& g) {
  std::vector<std::string> ids; std::vector<XY> spots;
  auto levels = wildMap(g, ids, spots);
  auto lc = std::make_shared<LevelCollector>();
  std::vector<std::string> names;
  for (auto& l : levels) { lc->addGeoLevel(l); names.push_back(l.id.value); }
  NavigationSettings s = wildSettings(g, names);
  auto m = wildStream(g, ids, spots);
  NOTE(g, levels.size() << " levels, " << ids.size() << " transmitters; " << e2e::show(s));
  for (auto& l : levels) NOTE(g, "level '" << l.id.value << "' " << l.transmitters.size() << " transmitters, " << l.referencePoints.size() << " reference points, " << l.geometry.allowedArea().size() << " areas");
  if (g.wantNote) for (auto& q : m) NOTE(g, e2e::show(q));
  drive(g, lc, s, m, 1 + (int)g.draw(2));
}
// ordinary maps with wild settings and values
static void wildInput(G& g) {
  World w = genWorld(g);
  std::vector<std::string> ids, names; std::vector<XY> spots;
  for (auto& l : w.L) { names.push_back(l.id); for (auto& t : l.txs) { ids.push_back(t.id); double a, b; toGeo(l.lat0, l.lon0, t.x, t.y, a, b); spots.push_back({a, b}); } }
  NavigationSettings s = g.boolean() ? wildSettings(g, names) : genSettings(g, w);
  std::vector<Measurement> m;
  if (g.boolean()) m = wildStream(g, ids, spots);
  else {
    m = genStream(g, w);
    int k = 1 + (int)g.draw(5);   // some messages spoilt
    for (int i = 0; i < k && !m.empty(); i++) {
      auto& q = m[g.draw(m.size() - 1)];
      if (auto d = boost::get<RadioMeasurementData>(&q.data)) { d->rssi = g.boolean() ? wild(g) : d->rssi; d->distance = wild(g); d->type = g.pick({d->type, RT::WIFI_RTT, RT::BEACON}); if (g.chance(1, 4)) d->id = TransmitterId(""); }
      else if (auto d = boost::get<SensorMeasurementData>(&q.data)) { double v = wild(g); int c = (int)g.draw(3); if (c == 0 || c == 3) d->values.x = v; if (c == 1 || c == 3) d->values.y = v; if (c == 2 || c == 3) d->values.z = v; }
    }
  }
  note(g, w); NOTE(g, e2e::show(s));
  if (g.wantNote) for (auto& q : m) NOTE(g, e2e::show(q));
  drive(g, collect(w), s, m, 1 + (int)g.draw(2));
}
static std::vector<pbt::Sub> subs() { return {{"map", wildAll, 100000, 2500000}, {"input", wildInput, 50000, 1200000}}; }
PBT_MAIN(subs)
