// C21: map documents, measurement logs and settings files are read back exactly.  Every document is written by a writer of
// our own (any order of keys, white space, number notation, escapes) from a description that the loaded objects must equal.
#include "pbt.h"
#include <sys/mman.h>
#include <unistd.h>
#include "tools/verification/helpers.h"
#include <navigine/navigation-core/barriers_geometry_builder.h>
#include <navigine/navigation-core/navigation_settings.h>
using namespace navigine::navigation_core;
using pbt::G;
typedef std::vector<std::pair<std::string, std::string>> Obj;   // key -> written value
// ---- writer
struct Writer {
  G& g; bool plain; bool oneLine;
  Writer(G& gg, bool line) : g(gg), oneLine(line) { plain = g.chance(1, 3); }
  std::string sp() { if (plain || !g.chance(1, 4)) return ""; return oneLine ? (g.boolean() ? " " : "\t ") : g.pick<std::string>({" ", "\n", "\n  ", "\t", "\r\n"}); }
  std::string num(double v) {
    char b[64];
    if (v == std::floor(v) && std::fabs(v) < 1e15 && !g.chance(1, 8)) { snprintf(b, sizeof b, "%.0f", v == 0 ? 0.0 : v); if (g.chance(1, 6)) strcat(b, ".0"); return b; }
    snprintf(b, sizeof b, g.chance(1, 6) ? "%.16e" : "%.17g", v);
    return b;
  }
  std::string integer(long long v) { return std::to_string(v); }
  std::string boolean(bool v) { return v ? "true" : "false"; }
  std::string str(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
      char b[16];
      if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
      else if (c == '/' && g.chance(1, 3)) r += "\\/";
      else if (c < 0x20) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
      else if (c < 0x80 && !plain && g.chance(1, 16)) { snprintf(b, sizeof b, "\\u%04X", c); r += b; }
      else r += (char)c;
    }
    return r + "\"";
  }
  std::string list(const std::vector<std::string>& v) { std::string r = "[" + sp(); for (size_t i = 0; i < v.size(); i++) r += (i ? "," + sp() : "") + v[i] + sp(); return r + "]"; }
  std::string obj(Obj o) {
    if (!plain) { auto p = g.permutation((int)o.size()); Obj q; for (int i : p) q.push_back(o[i]); o = q; }
    std::string r = "{" + sp();
    for (size_t i = 0; i < o.size(); i++) r += (i ? "," + sp() : "") + str(o[i].first) + sp() + ":" + sp() + o[i].second + sp();
    return r + "}";
  }
};
struct MemFile {
  int fd; std::string path;
  explicit MemFile(const std::string& s) { fd = memfd_create("doc", 0); size_t o = 0; while (o < s.size()) { ssize_t w = write(fd, s.data() + o, s.size() - o); if (w <= 0) abort(); o += (size_t)w; } path = "/proc/self/fd/" + std::to_string(fd); }
  ~MemFile() { close(fd); }
};
struct Quiet {   // the parsers report on the standard streams
  std::streambuf *o, *e; std::ostringstream s;
  Quiet() { o = std::cout.rdbuf(s.rdbuf()); e = std::cerr.rdbuf(s.rdbuf()); }
  ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
static std::string genId(G& g) {
  if (g.chance(1, 100)) { std::string s; for (int n = 200 << g.draw(5); n > 0; n--) s += "ab /\\\"x{}[],:"[g.draw(12)]; return s + std::to_string(g.draw(9)); }   // longer than any fixed buffer
  switch (g.draw(6)) {
    case 0: return "(" + std::to_string(g.draw(65535)) + "," + std::to_string(g.draw(65535)) + ",F7826DA6-4FA2-4E98-8024-BC5B71E0893E)";
    case 1: { std::string s; for (int i = 0; i < 6; i++) { char b[4]; snprintf(b, 4, "%02X", (int)g.draw(255)); s += (i ? ":" : "") + std::string(b); } return s; }
    case 2: return std::to_string(g.draw(100000));
    case 3: return "id " + std::to_string(g.draw(99)) + " \"q\" \\ / \xC3\xA9\xE2\x82\xAC";
    case 4: return std::string("a") + std::string(1 + g.draw(40), 'b') + std::to_string(g.draw(9));
    case 5: return "t\tn\n" + std::to_string(g.draw(99));
    default: return g.pick<std::string>({"0", "-1", "true", "null", "L1", "wifi", " "});
  }
}
static double genNum(G& g) {
  switch (g.draw(5)) {
    case 0: return (double)g.range(-200, 200);
    case 1: return g.real(-1e3, 1e3);
    case 2: return g.pick({0.0, 1e-12, 5e-324, 1.7976931348623157e308, -0.1, 1.0 / 3.0, 1e22, 123456789.123456789});
    case 3: return g.normal() * std::pow(10.0, (double)g.range(-8, 12));
    default: return g.range(-9, 9) / 4.0;
  }
}
static bool same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || a == b; }
// ================= messages =================
struct Msg { int type; long long ts; std::vector<double> values; std::string id; bool hasRssi = false, hasPower = false, hasDist = false, hasStd = false; double rssi = 0, power = 0, dist = 0, stddev = 0; int sentence = 0, sats = 0; std::string comment; };
static Msg genMsg(G& g, long long ts) {
  Msg m; m.ts = ts;
  m.type = g.pick({101, 102, 103, 104, 105, 106, 201, 202, 203, 204, 205, 300, 900});
  if (m.type < 200) { for (int i = 0; i < 3; i++) m.values.push_back(genNum(g)); if (m.type == 104) m.values[1] = m.values[2] = m.values[0]; }
  else if (m.type < 300) {
    m.id = genId(g);
    if (m.type == 205) { m.hasDist = m.hasStd = true; m.dist = g.chance(1, 3) ? genNum(g) : g.real(0, 100); m.stddev = g.chance(1, 4) ? genNum(g) : g.real(0, 9); if (g.chance(1, 4)) { m.hasRssi = true; m.rssi = -(double)g.range(1, 99); } }
    else { m.hasRssi = true; m.rssi = g.chance(1, 5) ? genNum(g) : -(double)g.range(1, 110); if (m.type >= 203) { m.hasPower = true; m.power = g.chance(1, 5) ? genNum(g) : (double)g.range(-90, 10); } }
  }
  else if (m.type == 300) { m.sentence = (int)g.draw(9); m.sats = (int)g.draw(60); }
  else m.comment = g.chance(1, 3) ? "{\"timestamp\": 1, \"type\": 201, \"bssid\": \"x\", \"rssi\": -50}" : genId(g);
  return m;
}
static std::string write(Writer& w, const Msg& m) {
  Obj o{{"timestamp", w.integer(m.ts)}, {"type", w.integer(m.type)}};
  if (m.type < 200) { std::vector<std::string> v; for (double x : m.values) v.push_back(w.num(x)); o.push_back({"values", w.list(v)}); }
  else if (m.type < 300) {
    o.push_back({"bssid", w.str(m.id)});
    if (m.hasRssi) o.push_back({"rssi", w.num(m.rssi)});
    if (m.hasPower) o.push_back({"power", w.num(m.power)});
    if (m.hasDist) o.push_back({"distance", w.num(m.dist)});
    if (m.hasStd) o.push_back({"stddev", w.num(m.stddev)});
  }
  else if (m.type == 300) { o.push_back({"sentence_number", w.integer(m.sentence)}); o.push_back({"num_sats", w.integer(m.sats)}); }
  else o.push_back({"comment", w.str(m.comment)});
  if (w.g.chance(1, 12)) o.push_back({"remark", w.str("unused")});
  return w.sp() + w.obj(o) + w.sp();
}
static const char* kindName(int t) { switch (t) { case 101: return "ACCELEROMETER"; case 102: return "GYROSCOPE"; case 103: return "MAGNETOMETER"; case 104: return "BAROMETER"; case 105: return "ORIENTATION"; case 106: return "LOCATION"; case 201: return "WIFI"; case 202: return "BLUETOOTH"; case 203: return "BEACON"; case 204: return "EDDYSTONE"; case 205: return "WIFI_RTT"; case 300: return "NMEA"; default: return "?"; } }
static std::string kindOf(const Measurement& m) {
  if (auto r = boost::get<RadioMeasurementData>(&m.data)) switch (r->type) { case RadioMeasurementData::Type::WIFI: return "WIFI"; case RadioMeasurementData::Type::BEACON: return "BEACON"; case RadioMeasurementData::Type::BLUETOOTH: return "BLUETOOTH"; case RadioMeasurementData::Type::EDDYSTONE: return "EDDYSTONE"; case RadioMeasurementData::Type::WIFI_RTT: return "WIFI_RTT"; }
  if (auto s = boost::get<SensorMeasurementData>(&m.data)) switch (s->type) { case SensorMeasurementData::Type::ACCELEROMETER: return "ACCELEROMETER"; case SensorMeasurementData::Type::MAGNETOMETER: return "MAGNETOMETER"; case SensorMeasurementData::Type::GYROSCOPE: return "GYROSCOPE"; case SensorMeasurementData::Type::BAROMETER: return "BAROMETER"; case SensorMeasurementData::Type::LOCATION: return "LOCATION"; case SensorMeasurementData::Type::ORIENTATION: return "ORIENTATION"; default: return "NONE"; }
  return boost::get<NmeaMeasurementData>(&m.data) ? "NMEA" : "?";
}
static void messages(G& g) {
  std::vector<Msg> in; int n = g.chance(1, 100) ? 200 + (int)g.draw(200) : g.small(25);
  long long ts = g.pick({0LL, 1541003875242LL, 4000000000LL, -5LL});
  for (int i = 0; i < n; i++) { ts += g.range(g.chance(1, 8) ? -3000 : 0, 3000); in.push_back(genMsg(g, ts)); }
  Writer w(g, true);
  std::string doc; bool crlf = g.chance(1, 6);
  for (int i = 0; i < n; i++) { doc += write(w, in[i]); if (i + 1 < n || g.boolean()) doc += crlf ? "\r\n" : "\n"; }
  NOTE(g, doc);
  std::vector<Msg> want; std::set<int> kinds;
  for (auto& m : in) { if (m.type != 900) want.push_back(m); kinds.insert(m.type); }
  if (kinds.size() >= 3) g.nontrivial(); if (kinds.count(204)) g.label("eddystone"); if (kinds.count(900)) g.label("comment");
  MemFile f(doc);
  std::vector<Measurement> got;
  { Quiet q; got = GetNavMessages(f.path); }
  if (kinds.count(900)) REQUIRE("comment", got.size() == want.size(), "the log holds " + std::to_string(want.size()) + " measurements (and comments) but " + std::to_string(got.size()) + " messages were read");
  REQUIRE("count", got.size() == want.size(), "the log holds " + std::to_string(want.size()) + " measurements but " + std::to_string(got.size()) + " messages were read");
  for (size_t i = 0; i < want.size(); i++) {
    const Msg& m = want[i]; const Measurement& r = got[i]; std::string at = "message " + std::to_string(i) + " (type " + std::to_string(m.type) + "): ";
    REQUIRE("ts", r.ts == m.ts, at + "timestamp " + std::to_string(r.ts) + " instead of " + std::to_string(m.ts));
    REQUIRE("kind", kindOf(r) == kindName(m.type), at + "read as " + kindOf(r));
    if (m.type < 200) {
      const Vector3d& v = boost::get<SensorMeasurementData>(r.data).values;
      REQUIRE("values", same(v.x, m.values[0]) && same(v.y, m.values[1]) && same(v.z, m.values[2]), at + "values " + pbt::str(v.x) + " " + pbt::str(v.y) + " " + pbt::str(v.z));
    } else if (m.type < 300) {
      const auto& d = boost::get<RadioMeasurementData>(r.data);
      REQUIRE("bssid", d.id.value == m.id, at + "bssid <" + d.id.value + ">");
      REQUIRE("rssi", same(d.rssi, m.rssi), at + "rssi " + pbt::str(d.rssi));
      REQUIRE("distance", same(d.distance, m.dist), at + "distance " + pbt::str(d.distance));
      REQUIRE("power", same(d.power, m.power), at + "power " + pbt::str(d.power) + " instead of " + pbt::str(m.power));
      REQUIRE("stddev", same(d.stddev, m.stddev), at + "stddev " + pbt::str(d.stddev) + " instead of " + pbt::str(m.stddev));
    } else {
      const auto& d = boost::get<NmeaMeasurementData>(r.data);
      REQUIRE("nmea", d.sentenceNumber == m.sentence && d.satellitesNumber == m.sats, at + "nmea " + std::to_string(d.sentenceNumber) + " " + std::to_string(d.satellitesNumber));
    }
  }
}
// splitting a log splits the messages: the messages of two logs written one after the other are those of the first and the second
static std::string dump(const Measurement& m) {
  std::string s = std::to_string(m.ts) + kindOf(m);
  if (auto r = boost::get<RadioMeasurementData>(&m.data)) s += r->id.value + pbt::str(r->rssi) + pbt::str(r->power) + pbt::str(r->distance) + pbt::str(r->stddev);
  if (auto r = boost::get<SensorMeasurementData>(&m.data)) s += pbt::str(r->values.x) + "," + pbt::str(r->values.y) + "," + pbt::str(r->values.z);
  if (auto r = boost::get<NmeaMeasurementData>(&m.data)) s += std::to_string(r->sentenceNumber) + "," + std::to_string(r->satellitesNumber);
  return s;
}
static void split(G& g) {
  Writer w(g, true); std::string doc[2]; int n[2];
  for (int k = 0; k < 2; k++) { n[k] = 1 + g.small(10); for (int i = 0; i < n[k]; i++) doc[k] += write(w, genMsg(g, 1000 + (long long)g.draw(100000))) + "\n"; }
  NOTE(g, doc[0]); NOTE(g, doc[1]);
  if (n[0] + n[1] >= 4) g.nontrivial();
  MemFile a(doc[0]), b(doc[1]), c(doc[0] + doc[1]);
  std::vector<Measurement> x, y, z; { Quiet q; x = GetNavMessages(a.path); y = GetNavMessages(b.path); z = GetNavMessages(c.path); }
  x.insert(x.end(), y.begin(), y.end());
  REQUIRE("concat", x.size() == z.size(), "separately " + std::to_string(x.size()) + " messages, together " + std::to_string(z.size()));
  for (size_t i = 0; i < x.size(); i++) REQUIRE("concat", dump(x[i]) == dump(z[i]), "message " + std::to_string(i) + ": " + dump(x[i]) + " / " + dump(z[i]));
}
// ================= settings =================
typedef CommonSettings CS;
struct Field { const char* key; int kind; void* (*at)(CS&); };   // 0 bool 1 double 2 unsigned 3 long long 4 algorithm 5 measurement type 6 signals
#define F(k, kind, m) {k, kind, [](CS& s) -> void* { return &s.m; }}
static const Field fields[] = {
  F("Use_algorithm", 4, useAlgorithm), F("Correction_noise", 1, lklCorrectionNoise), F("Use_enu_azimuth", 0, useEnuAzimuth), F("Differention_mode", 0, useDifferentionMode),
  F("Use_beacon_power", 0, useTxPower), F("Use_radiomap", 0, useRadiomap), F("Use_stops", 0, useStops), F("Use_tracking", 0, useTracking), F("Stop_detection_time", 1, stopDetectionTime),
  F("Min_deviation_m", 1, minDeviationM), F("Average_speed", 1, averageMovSpeed), F("Measurement_type", 5, measurementType), F("Use_best_ref_point_level", 0, useBestRefPointLevel),
  F("Use_barometer", 0, useBarometer), F("Use_unknown_beacons", 0, useUnknownTransmitters), F("Cutoff_rss", 1, sigCutOffRss), F("Use_closest_aps", 0, useClosestAps), F("N_closest_aps", 2, numClosestAps),
  F("Sig_averaging_time", 1, sigAveragingTime), F("Sig_window_shift", 1, sigWindowShift), F("Use_Signals", 6, signalsToUse), F("N_particles", 2, numParticles), F("Min_msr_num_for_mutation", 2, minMsrNumForMutation),
  F("Resampling_threshold_num", 1, resamplingThreshold), F("Min_num_of_particles", 2, minNumParticlesAlive), F("Gyro_noise_degree", 1, gyroNoiseDegree), F("Step_noise_deviation_meters", 1, stepNoiseDeviationMeters),
  F("Use_projection_to_white_area", 0, useProjectionToWhiteArea), F("N_particles_around_closest_AP", 2, numParticlesAroundClosestAp), F("N_particles_to_mutate", 2, numParticlesToMutate),
  F("Num_sampling_attempts", 2, numSamplingAttempts), F("Num_initialization_attempts", 2, numInitializationAttempts), F("Use_uniform_sampling", 0, useUniformSampling), F("K_neighbors", 2, kNeighbors), F("K", 2, kNeighbors),
  F("Use_triangles", 0, useTriangles), F("Use_diff_mode", 0, useDiffMode), F("Min_num_of_measurements_for_position_calculation", 2, minNumOfMeasurementsForPositionCalculation), F("Smoothing", 1, smoothing),
  F("Dead_reckon_time", 1, deadReckoningTime), F("Stop_update_time", 1, stopUpdateTime), F("Graph_prog_distance", 1, graphProjDist), F("Stopped_distance_threshold_m", 1, useStopsDistanceThresholdM),
  F("Use_smoothing", 0, useSmoothing), F("Use_graph_projection", 0, useGraphProjection), F("Use_accuracy_for_smoothing", 0, useAccuracyForSmoothing), F("Use_speed_constraint", 0, useSpeedConstraint),
  F("Use_barriers", 0, useBarriers), F("Use_time_smoothing", 0, useTimeSmoothing), F("Use_ab_filter", 0, useAbFilter), F("Use_altitude", 0, useAltitude), F("Use_gps", 0, useGps), F("Use_instant_gps_position", 0, useInstantGpsPosition),
  F("Prefer_indoor_solution", 0, preferIndoorSolution), F("Fuse_gps", 0, fuseGps), F("Use_gps_outside_map", 0, useGpsOutsideMap), F("Use_gps_sigma_filter", 0, useGpsSigmaFilter), F("Sigma_filter_window", 2, sigmaFilterWindow),
  F("Sigma_filter_delta", 1, sigmaFilterDelta), F("Min_num_sats", 2, minNumSats), F("Prior_deviation", 1, priorDeviation), F("Gps_deviation", 1, minGpsDeviation), F("Maximum_to_accept_gps_measurement", 1, maxGpsDeviation),
  F("Fuse_gps_border", 1, fuseGpsBorderM), F("Fuse_gps_border_m", 1, fuseGpsBorderM), F("No_signal_time_threshold", 3, noSignalTimeThreshold), F("No_action_time_threshold", 3, noActionTimeThreshold),
  F("Position_old_for_fusing_sec", 1, positionIsTooOldSec), F("Gps_valid_time_window_sec", 1, gpsValidTimeWindowSec), F("Use_calculated_azimuth", 0, useCalculatedAzimuth), F("Device_azimuth_lifetime_seconds", 1, deviceAzimuthLifetimeSeconds),
  F("Step_multiplier", 1, stepMultiplier), F("Has_accelerometer", 0, hasAccelerometer), F("Has_gyroscope", 0, hasGyroscope), F("WiFi_RTT_Offset", 1, wiFiRttOffset)};
static const size_t nFields = sizeof fields / sizeof fields[0];
static std::string show(const Field& f, CS& s) {
  void* p = f.at(s);
  switch (f.kind) { case 0: return *(bool*)p ? "true" : "false"; case 1: return pbt::str(*(double*)p); case 2: return std::to_string(*(unsigned*)p); case 3: return std::to_string(*(long long*)p); default: return std::to_string(*(int*)p); }
}
static void settings(G& g) {
  CS want; Writer w(g, false);
  Obj common; std::set<void*> seen; unsigned set = 0;
  unsigned density = (unsigned)g.draw(8);
  for (size_t i = 0; i < nFields; i++) {
    const Field& f = fields[i]; void* p = f.at(want);
    if (!g.chance(density, 8) || seen.count(p)) continue;      // two names of one setting never together
    seen.insert(p); set++;
    std::string v;
    switch (f.kind) {
      case 0: { bool b = g.boolean(); *(bool*)p = b; v = w.boolean(b); break; }
      case 1: { double d = genNum(g); *(double*)p = d; v = w.num(d); break; }
      case 2: { unsigned u = g.chance(1, 8) ? g.pick({0u, 4294967295u, 2147483648u}) : (unsigned)g.draw(2000); *(unsigned*)p = u; v = w.integer(u); break; }
      case 3: { long long u = g.chance(1, 8) ? g.pick({0LL, 5000000000LL, -1LL}) : (long long)g.draw(100); *(long long*)p = u; v = w.integer(u); break; }
      case 4: { static const char* n[] = {"PF_PDR", "PF_NOPDR", "ZONES", "GRAPH", "KNN"}; static const CS::UseAlgorithm e[] = {CS::UseAlgorithm::PF_PDR, CS::UseAlgorithm::PF_NOPDR, CS::UseAlgorithm::ZONES, CS::UseAlgorithm::GRAPH, CS::UseAlgorithm::KNN}; int k = (int)g.draw(4); *(CS::UseAlgorithm*)p = e[k]; v = w.str(n[k]); break; }
      case 5: { static const char* n[] = {"rssi", "distance_v1", "distance_v2"}; static const CS::MeasurementType e[] = {CS::MeasurementType::RSSI, CS::MeasurementType::DISTANCE_V1, CS::MeasurementType::DISTANCE_V2}; int k = (int)g.draw(2); *(CS::MeasurementType*)p = e[k]; v = w.str(n[k]); break; }
      default: { static const char* n[] = {"ble", "wifi", "both"}; static const CS::SignalsToUse e[] = {CS::SignalsToUse::BLE, CS::SignalsToUse::WIFI, CS::SignalsToUse::BOTH}; int k = (int)g.draw(2); *(CS::SignalsToUse*)p = e[k]; v = w.str(n[k]); break; }
    }
    common.push_back({f.key, v});
  }
  if (g.chance(1, 4)) common.push_back({"Some_unknown_setting", g.pick<std::string>({"1", "\"x\"", "[1,2]", "null", "{}"})});
  std::map<std::string, LevelSettings> wantLevels; std::vector<std::string> lv;
  for (int i = g.small(4); i > 0; i--) {
    std::string id = genId(g); if (wantLevels.count(id)) continue;
    LevelSettings ls; Obj o;
    if (g.chance(3, 4)) { ls.normalModeA = genNum(g); o.push_back({"A", w.num(ls.normalModeA)}); }
    if (g.chance(3, 4)) { ls.normalModeB = genNum(g); o.push_back({"B", w.num(ls.normalModeB)}); }
    if (g.chance(1, 6)) o.push_back({"C", "3"});
    wantLevels[id] = ls;
    lv.push_back(w.obj({{"level", w.str(id)}, {"settings", w.list({w.obj(o)})}}));
  }
  std::string doc = w.obj({{"level_settings", w.list(lv)}, {"common_settings", w.list({w.obj(common)})}});
  NOTE(g, doc);
  if (set >= 5) g.nontrivial();
  MemFile f(doc); int err = 77; NavigationSettings got;
  { Quiet q; got = CreateSettingsFromJson(f.path, err); }
  REQUIRE("settings_code", err == 0, "error code " + std::to_string(err) + " for a readable settings file");
  for (size_t i = 0; i < nFields; i++) {
    std::string a = show(fields[i], want), b = show(fields[i], got.commonSettings);
    bool eq = fields[i].kind == 1 ? same(*(double*)fields[i].at(want), *(double*)fields[i].at(got.commonSettings)) : a == b;
    REQUIRE("setting", eq, std::string(fields[i].key) + " is " + b + " instead of " + a);
  }
  REQUIRE("level_settings", got.levelsSettings.size() == wantLevels.size(), std::to_string(got.levelsSettings.size()) + " level settings instead of " + std::to_string(wantLevels.size()));
  for (auto& kv : wantLevels) {
    auto it = got.levelsSettings.find(LevelId(kv.first));
    REQUIRE("level_settings", it != got.levelsSettings.end(), "no settings for level " + kv.first);
    REQUIRE("level_settings", same(it->second.normalModeA, kv.second.normalModeA) && same(it->second.normalModeB, kv.second.normalModeB), "level " + kv.first + ": A " + pbt::str(it->second.normalModeA) + " B " + pbt::str(it->second.normalModeB));
  }
}
static void missing(G& g) {   // a settings file that is not there is reported and leaves the defaults
  int err = 0; NavigationSettings got; std::string p = "/nonexistent/" + std::to_string(g.draw(1000)) + ".json"; g.nontrivial();
  NOTE(g, p);
  { Quiet q; got = CreateSettingsFromJson(p, err); }
  CS want;
  REQUIRE("missing", err != 0, "no error code for a missing settings file");
  for (size_t i = 0; i < nFields; i++) REQUIRE("missing", show(fields[i], want) == show(fields[i], got.commonSettings), std::string(fields[i].key) + " is not the default");
  std::vector<Measurement> m; { Quiet q; m = GetNavMessages(p); }
  REQUIRE("missing", m.empty(), "messages from a missing log");
}
// ================= maps =================
struct TX { std::string id, type; double lat, lon, alt, A, B; bool hasA, hasB, hasAlt; };
struct RP { std::string id; double lat, lon; struct E { std::string bssid, type; std::vector<std::pair<int, int>> h; }; std::vector<E> e; };
struct Loop { std::vector<std::pair<double, double>> p; };   // lat, lon; not closed
struct LV { std::string id; std::vector<std::vector<Loop>> polys; std::vector<TX> tx; std::vector<RP> rp; std::vector<std::pair<double, double>> v; std::vector<std::pair<int, int>> e; bool graph = false; };
static const char* TYPES[] = {"WIFI", "BEACON", "BLUETOOTH", "EDDYSTONE", "LOCATOR", "UNKNOWN"};
static const TransmitterType TVAL[] = {TransmitterType::WIFI, TransmitterType::BEACON, TransmitterType::BLUETOOTH, TransmitterType::EDDYSTONE, TransmitterType::LOCATOR, TransmitterType::UNKNOWN};
static TransmitterType tval(const std::string& s) { for (int i = 0; i < 6; i++) if (s == TYPES[i]) return TVAL[i]; abort(); }
static std::string point(Writer& w, double lat, double lon) { return w.list({w.num(lon), w.num(lat)}); }
static bool inside(const Loop& r, double y, double x) {   // ray casting
  bool in = false; size_t n = r.p.size();
  for (size_t i = 0, j = n - 1; i < n; j = i++) { double yi = r.p[i].first, xi = r.p[i].second, yj = r.p[j].first, xj = r.p[j].second; if ((yi > y) != (yj > y) && x < (xj - xi) * (y - yi) / (yj - yi) + xi) in = !in; }
  return in;
}
static double borderDist(const Loop& r, double y, double x) {
  double best = 1e300; size_t n = r.p.size();
  for (size_t i = 0, j = n - 1; i < n; j = i++) {
    double ay = r.p[j].first, ax = r.p[j].second, by = r.p[i].first - ay, bx = r.p[i].second - ax, t = ((y - ay) * by + (x - ax) * bx) / (by * by + bx * bx);
    t = std::min(1.0, std::max(0.0, t)); best = std::min(best, std::hypot(y - ay - t * by, x - ax - t * bx));
  }
  return best;
}
static Loop star(G& g, double cy, double cx, double r) {   // star-shaped polygon of radius within (r/2, r)
  Loop k; int n = 3 + (int)g.draw(6); double a0 = g.real(0, 6.28);
  for (int i = 0; i < n; i++) { double a = a0 + 2 * M_PI * i / n, d = r * g.real(0.55, 1); k.p.push_back({cy + d * std::sin(a), cx + d * std::cos(a)}); }
  if (g.boolean()) std::reverse(k.p.begin(), k.p.end());
  return k;
}
static void maps(G& g) {
  std::vector<LV> ls; std::set<std::string> ids; Writer w(g, false);
  double lat0 = g.real(-70, 70), lon0 = g.real(-170, 170), coslat = std::cos(lat0 * M_PI / 180); const double D = 1e-4;   // about 10 m
  for (int i = 1 + g.small(3); i > 0; i--) {
    LV l; l.id = genId(g); if (!ids.insert(l.id).second) continue;
    for (int k = 1 + g.small(3), c = 0; c < k; c++) {   // disjoint stars side by side, holes well inside
      std::vector<Loop> poly; double cy = lat0, cx = lon0 + 6 * D * c, r = 2.5 * D;
      poly.push_back(star(g, cy, cx, r));
      int holes = (int)g.draw(2);
      if (g.chance(1, 12)) { int m = 3 + (int)g.draw(22); for (int h = 0; h < m; h++) poly.push_back(star(g, cy + 0.2 * D * (h / 5 - 2), cx + 0.2 * D * (h % 5 - 2), 0.08 * D)); holes = 0; }   // a hall full of pillars
      for (int h = 0; h < holes; h++) poly.push_back(star(g, cy, cx + (h ? -1 : 1) * 0.22 * D, 0.2 * D));
      l.polys.push_back(poly);
    }
    for (int k = g.small(6); k > 0; k--) {
      TX t; t.id = genId(g); t.type = TYPES[g.draw(5)]; t.lat = lat0 + D * g.real(-3, 3); t.lon = lon0 + D * g.real(-3, 3);
      t.hasAlt = g.boolean(); t.alt = t.hasAlt ? g.real(-5, 50) : 0; t.hasA = g.boolean(); t.A = t.hasA ? genNum(g) : -80; t.hasB = g.boolean(); t.B = t.hasB ? genNum(g) : 3;
      l.tx.push_back(t);
    }
    for (int k = g.small(5); k > 0; k--) {
      RP p; p.id = genId(g); p.lat = lat0 + D * g.real(-3, 3); p.lon = lon0 + D * g.real(-3, 3);
      std::set<std::string> used;
      for (int e = g.small(4); e > 0; e--) {
        RP::E x; x.bssid = genId(g); if (!used.insert(x.bssid).second) continue; x.type = TYPES[g.draw(5)];
        std::set<int> rs; for (int q = 1 + g.sized(5, 80, 20); q > 0; q--) { int r = (int)g.range(1, 110); if (rs.insert(r).second) x.h.push_back({r, 1 + (int)g.draw(30)}); }
        p.e.push_back(x);
      }
      l.rp.push_back(p);
    }
    l.graph = g.chance(2, 3);
    if (l.graph) {
      int n = 2 + g.sized(7, 40, 10); double s = g.boolean() ? 2 * D : D * g.real(0.025, 0.2);   // corners from 28 cm to 20 m apart
      for (int k = 0; k < n; k++) l.v.push_back({lat0 + s * (k / 3), lon0 + (s * (k % 3) + s * 0.15 * k) / coslat});
      for (int k = 1 + (n > 9 ? (int)g.draw(80) : g.small(10)); k > 0; k--) { int a = (int)g.draw(n - 1), b = (int)g.draw(n - 1); if (a != b) l.e.push_back({a, b}); }
    }
    ls.push_back(l);
  }
  std::vector<std::string> feats; size_t objects = 0;
  auto feature = [&](const std::string& type, const std::string& level, Obj props, const std::string& geomType, const std::string& coords) {
    props.push_back({"type", w.str(type)}); props.push_back({"level", w.str(level)});
    feats.push_back(w.obj({{"type", w.str("Feature")}, {"properties", w.obj(props)}, {"geometry", w.obj({{"type", w.str(geomType)}, {"coordinates", coords}})}}));
  };
  std::vector<std::function<void()>> todo;
  for (auto& l : ls) {
    todo.push_back([&] {
      std::vector<std::string> ps;
      for (auto& poly : l.polys) { std::vector<std::string> rs; for (auto& r : poly) { std::vector<std::string> pts; for (auto& p : r.p) pts.push_back(point(w, p.first, p.second)); pts.push_back(pts[0]); rs.push_back(w.list(pts)); } ps.push_back(w.list(rs)); }
      feature("level", l.id, {}, "MultiPolygon", w.list(ps));
    });
    if (l.graph && !l.e.empty()) todo.push_back([&] {
      std::vector<std::string> es;
      auto pt = [&](int k) { double j = g.chance(1, 3) ? 3e-7 : 0; return point(w, l.v[k].first + j * g.real(-1, 1), l.v[k].second + j * g.real(-1, 1) / coslat); };   // the same corner up to 3 cm
      for (auto& e : l.e) es.push_back(w.list({pt(e.first), pt(e.second)}));
      feature("graph", l.id, {}, "MultiLineString", w.list(es));
    });
    // the transmitters and the reference points of a level keep their order, but may be mixed with everything else
  }
  std::vector<size_t> nt(ls.size(), 0), nr(ls.size(), 0);
  auto writeTx = [&](const LV& l, const TX& t) {
    Obj p{{"uuid", w.str(t.id)}, {"transmitter_type", w.str(t.type)}}; if (t.hasA) p.push_back({"A", w.num(t.A)}); if (t.hasB) p.push_back({"B", w.num(t.B)});
    feature("transmitter", l.id, p, "Point", t.hasAlt ? w.list({w.num(t.lon), w.num(t.lat), w.num(t.alt)}) : point(w, t.lat, t.lon));
  };
  auto writeRp = [&](const LV& l, const RP& r) {
    std::vector<std::string> es;
    for (auto& e : r.e) { std::vector<std::string> vs; for (auto& h : e.h) vs.push_back(w.obj({{"rssi", w.integer(h.first)}, {"count", w.integer(h.second)}})); es.push_back(w.obj({{"bssid", w.str(e.bssid)}, {"type", w.str(e.type)}, {"value", w.list(vs)}})); }
    feature("reference_point", l.id, {{"uuid", w.str(r.id)}, {"entries", w.list(es)}}, "Point", point(w, r.lat, r.lon));
  };
  for (;;) {   // interleave
    std::vector<std::function<void()>> next;
    for (size_t i = 0; i < ls.size(); i++) {
      if (nt[i] < ls[i].tx.size()) next.push_back([&, i] { writeTx(ls[i], ls[i].tx[nt[i]++]); objects++; });
      if (nr[i] < ls[i].rp.size()) next.push_back([&, i] { writeRp(ls[i], ls[i].rp[nr[i]++]); objects++; });
    }
    if (!todo.empty()) next.push_back([&] { auto f = todo.back(); todo.pop_back(); f(); });
    if (next.empty()) break;
    next[g.draw(next.size() - 1)]();
  }
  if (g.chance(1, 5)) feature("venue", ls[0].id, {{"name", w.str("Caf\xC3\xA9")}}, "Point", point(w, lat0, lon0));
  std::string doc = w.obj({{"type", w.str("FeatureCollection")}, {"features", w.list(feats)}});
  NOTE(g, doc);
  if (objects >= 3) g.nontrivial();
  MemFile f(doc); int err = 77; GeoLevels got; { Quiet q; got = ParseGeojson(f.path, err); }
  REQUIRE("map_code", err == 0, "error code " + std::to_string(err));
  REQUIRE("levels", got.size() == ls.size(), std::to_string(got.size()) + " levels instead of " + std::to_string(ls.size()));
  for (auto& l : ls) {
    const GeoLevel* r = nullptr; for (auto& x : got) if (x->id.value == l.id) r = x.get();
    REQUIRE("levels", r != nullptr, "level <" + l.id + "> is missing");
    std::string at = "level <" + l.id + ">: ";
    REQUIRE("transmitters", r->transmitters.size() == l.tx.size(), at + std::to_string(r->transmitters.size()) + " transmitters instead of " + std::to_string(l.tx.size()));
    for (size_t i = 0; i < l.tx.size(); i++) {
      const auto& a = r->transmitters[i]; const TX& t = l.tx[i];
      REQUIRE("transmitter_id", a.id.value == t.id, at + "transmitter " + std::to_string(i) + " is <" + a.id.value + ">");
      REQUIRE("transmitter_type", a.type == tval(t.type), at + t.id + " is not of type " + t.type);
      REQUIRE("transmitter_pos", same(a.point.latitude, t.lat) && same(a.point.longitude, t.lon) && same(a.point.altitude, t.alt), at + t.id + " at " + pbt::str(a.point.latitude) + " " + pbt::str(a.point.longitude) + " " + pbt::str(a.point.altitude));
      REQUIRE("transmitter_model", same(a.pathlossModel.A, t.A) && same(a.pathlossModel.B, t.B), at + t.id + " A " + pbt::str(a.pathlossModel.A) + " B " + pbt::str(a.pathlossModel.B));
    }
    REQUIRE("reference_points", r->referencePoints.size() == l.rp.size(), at + std::to_string(r->referencePoints.size()) + " reference points instead of " + std::to_string(l.rp.size()));
    for (size_t i = 0; i < l.rp.size(); i++) {
      const auto& a = r->referencePoints[i]; const RP& p = l.rp[i];
      REQUIRE("rp_place", a.id.value == p.id && same(a.point.latitude, p.lat) && same(a.point.longitude, p.lon), at + "reference point " + p.id + " is <" + a.id.value + "> at " + pbt::str(a.point.latitude) + " " + pbt::str(a.point.longitude));
      REQUIRE("fingerprint", a.fingerprints.size() == p.e.size(), at + p.id + ": " + std::to_string(a.fingerprints.size()) + " entries instead of " + std::to_string(p.e.size()));
      for (auto& e : p.e) {
        auto it = a.fingerprints.find(TransmitterId(e.bssid));
        REQUIRE("fingerprint", it != a.fingerprints.end(), at + p.id + ": no entry of <" + e.bssid + ">");
        long double sum = 0; size_t n = 0; for (auto& h : e.h) { sum += (long double)h.first * h.second; n += h.second; }
        REQUIRE("fingerprint_stat", it->second.nMeasurements == n && pbt::close(it->second.mean, (double)(-sum / n), 1e-9, 1e-12) && it->second.type == tval(e.type), at + p.id + " <" + e.bssid + ">: " + std::to_string(it->second.nMeasurements) + " measurements of mean " + pbt::str(it->second.mean) + ", expected " + std::to_string(n) + " of mean " + pbt::str((double)(-sum / n)));
      }
    }
    // graph: the distinct corners that occur in edges, and the edges between them
    std::vector<Graph<GeoPoint>::Vertex> vs(r->graph.vertexBegin(), r->graph.vertexEnd());
    std::set<int> usedV; std::set<std::pair<int, int>> wantE, gotE;
    for (auto& e : l.e) { usedV.insert(e.first); usedV.insert(e.second); wantE.insert({std::min(e.first, e.second), std::max(e.first, e.second)}); }
    auto corner = [&](const GeoPoint& p) { for (size_t k = 0; k < l.v.size(); k++) if (std::fabs(p.latitude - l.v[k].first) < 5e-7 && std::fabs(p.longitude - l.v[k].second) < 5e-7 / coslat) return (int)k; return -1; };
    std::set<int> gotV; for (auto& v : vs) { int c = corner(v.point); REQUIRE("graph_vertex", c >= 0 && usedV.count(c) && gotV.insert(c).second, at + "graph vertex at " + pbt::str(v.point.latitude) + " " + pbt::str(v.point.longitude) + " is unknown or there twice"); }
    REQUIRE("graph_vertex", gotV.size() == usedV.size(), at + std::to_string(gotV.size()) + " graph vertices instead of " + std::to_string(usedV.size()));
    for (auto it = r->graph.edgesBegin(); it != r->graph.edgesEnd(); ++it) { int a = corner(r->graph.vertex(it->first).point), b = corner(r->graph.vertex(it->second).point); gotE.insert({std::min(a, b), std::max(a, b)}); }
    REQUIRE("graph_edges", gotE == wantE, at + std::to_string(gotE.size()) + " graph edges instead of " + std::to_string(wantE.size()) + ", or others");
    // area: every outline and every hole is a ring of its own
    typedef std::set<std::pair<double, double>> Corners; std::multiset<Corners> wantR, gotR;
    auto add = [](std::multiset<Corners>& m, const auto& ring) { Corners c; for (auto& q : ring) c.insert({boost::geometry::get<0>(q), boost::geometry::get<1>(q)}); m.insert(c); };
    for (auto& poly : r->geometry.allowedArea()) { add(gotR, poly.outer()); for (auto& q : poly.inners()) add(gotR, q); }
    for (auto& poly : l.polys) for (auto& q : poly) { Corners c; for (auto& v : q.p) c.insert({v.first, v.second}); wantR.insert(c); }
    REQUIRE("area_rings", gotR == wantR, at + std::to_string(gotR.size()) + " rings read, " + std::to_string(wantR.size()) + " in the document, or with other corners");
    // area: membership of random places
    for (int k = 0; k < 12; k++) {
      double y = lat0 + D * g.real(-3, 3), x = lon0 + D * g.real(-3, 6.0 * l.polys.size() - 3);
      if (g.chance(1, 3)) { y = lat0 + D * g.real(-0.3, 0.3); x = lon0 + 6 * D * (double)g.draw(l.polys.size() - 1) + D * g.real(-0.5, 0.5); }
      bool want = false, near = false;
      for (auto& poly : l.polys) { bool in = inside(poly[0], y, x); for (auto& q : poly) near |= borderDist(q, y, x) < 1e-9; for (size_t h = 1; h < poly.size(); h++) if (inside(poly[h], y, x)) in = false; want |= in; }
      if (near) continue;
      bool have = boost::geometry::covered_by(Point(y, x), r->geometry.allowedArea());
      REQUIRE("area", have == want, at + "place " + pbt::str(y) + " " + pbt::str(x) + (want ? " is walkable in the document only" : " is not walkable in the document"));
    }
  }
}
static std::vector<pbt::Sub> subs() { return {{"messages", messages, 12000, 200000}, {"split", split, 4000, 40000}, {"settings", settings, 8000, 150000}, {"missing", missing, 50, 200}, {"maps", maps, 5000, 80000}}; }
PBT_MAIN(subs)
