// C07: MeasurementsPreprocessor against a model that recomputes every result from the whole history of readings.
#include "mapgen.h"
#include "src/measurements/measurement_preprocessor.h"
using namespace mg;
typedef RadioMeasurementData::Type RT;
struct Rec { long long ts; RadioMeasurementData d; };
static void window(G& g) {
  // map: two levels; one transmitter id exists on both, with different models and kinds
  std::vector<LevelSpec> L(2);
  std::vector<std::string> ids;
  for (int i = 0; i < 2; i++) {
    LevelSpec& l = L[i];
    l.id = i ? "B" : "A"; l.lat0 = 50; l.lon0 = 10; l.W = l.H = 20; l.area.push_back({rect(0, 0, 20, 20), {}});
    int n = 1 + (int)g.draw(3);
    for (int k = 0; k < n; k++) {
      std::string id = std::string(i ? "b" : "a") + std::to_string(k);
      ids.push_back(id);
      l.txs.push_back({id, 1.0 + k, 2.0, 0, -60.0 - k, 2.0 + k + i, -59, g.chance(1, 4) ? TransmitterType::LOCATOR : TransmitterType::BEACON});
    }
  }
  if (g.boolean()) L[1].txs.push_back({L[0].txs[0].id, 5, 5, 0, -75, 4, -40, L[0].txs[0].type == TransmitterType::LOCATOR ? TransmitterType::BEACON : TransmitterType::LOCATOR});
  ids.push_back("zz");   // unknown
  ids.push_back("0");
  bool dense = g.chance(1, 40);        // a crowded place: hundreds of readings within one averaging period
  if (dense) for (int k = g.draw(80); k > 0; k--) ids.push_back("u" + std::to_string(k));
  auto lc = std::make_shared<LevelCollector>();
  for (auto& l : L) lc->addGeoLevel(toGeoLevel(l));
  NavigationSettings s; auto& c = s.commonSettings;
  c.sigAveragingTime = g.pick({1.0, 2.0, 3.0, 0.5, 5.0, 0.0});
  c.sigWindowShift = g.pick({0.0, 0.5, 1.0, 2.0, 7.0});
  c.useStops = g.boolean(); c.stopDetectionTime = g.pick({3.0, 0.5, 10.0});
  c.useUnknownTransmitters = g.boolean(); c.useTracking = g.chance(1, 4); c.sigCutOffRss = g.pick({-100.0, -80.0, -60.0});
  c.useClosestAps = g.chance(1, 3); c.numClosestAps = (unsigned)g.draw(4);
  c.signalsToUse = g.pick({CommonSettings::SignalsToUse::BLE, CommonSettings::SignalsToUse::WIFI, CommonSettings::SignalsToUse::BOTH});
  c.measurementType = g.pick({CommonSettings::MeasurementType::RSSI, CommonSettings::MeasurementType::RSSI, CommonSettings::MeasurementType::DISTANCE_V1, CommonSettings::MeasurementType::DISTANCE_V2});
  c.wiFiRttOffset = g.pick({-1.5, 0.0, 2.0});
  bool rssiMode = c.measurementType == CommonSettings::MeasurementType::RSSI;
  bool wifi = c.signalsToUse != CommonSettings::SignalsToUse::BLE, ble = c.signalsToUse != CommonSettings::SignalsToUse::WIFI;
  long long avg = (long long)(1000 * c.sigAveragingTime), shift = (long long)(1000 * c.sigWindowShift), stop = (long long)(1000 * c.stopDetectionTime);
  if (shift == 0 || shift > avg) shift = avg;
  long long keep = avg - shift;
  NOTE(g, "averaging " << avg << " ms, shift " << shift << " ms, stops " << c.useStops << "/" << stop << " ms, cutoff " << c.sigCutOffRss << ", unknown " << c.useUnknownTransmitters << ", tracking " << c.useTracking
          << ", wifi " << wifi << " ble " << ble << ", rssi mode " << rssiMode << ", closest " << c.useClosestAps << "/" << c.numClosestAps);
  std::map<std::string, RT> kind;   // one radio kind per transmitter
  for (auto& id : ids) kind[id] = g.pick({RT::BEACON, RT::WIFI, RT::BLUETOOTH, RT::EDDYSTONE, RT::WIFI_RTT});
  bool mixed = g.chance(1, 3);         // an access point may be heard by scanning and by ranging
  MeasurementsPreprocessor pp(lc, s);
  long long ts = g.pick({1LL, 1000LL, 1700000000000LL}), lastStep = 0;
  std::vector<Rec> valid;             // history of valid readings (model)
  size_t from = 0;                    // readings before this one were discarded
  bool any = false; long long lastOut = 0, cur = 0, lastSignal = 0;
  int results = 0, multi = 0, retained = 0;
  bool flood = dense && shift >= 300 && g.chance(1, 10);   // thousands of readings in one window
  int n = flood ? 1200 + (int)g.draw(2500) : dense ? 150 + (int)g.draw(700) : 2 + g.small(60);
  bool negative = g.chance(1, 4);      // ranging may report distances below zero
  for (int i = 0; i < n; i++) {
    if (dense && !g.chance(1, 100)) ts += (long long)g.draw(flood ? 1 : 12);
    else switch (g.draw(6)) {
      case 0: break;
      case 1: ts += 1; break;
      case 2: ts += shift > 0 ? (long long)g.draw(2 * shift) : 50; break;
      case 3: ts += std::max(0LL, shift - (any ? (ts - lastOut) : 0) + (long long)g.range(-1, 1)); break;   // around the shift boundary
      case 4: ts += std::max(0LL, keep + (long long)g.range(-1, 1)); break;                                  // around the retention boundary
      case 5: ts += (long long)g.draw(400); break;
      default: ts += (long long)g.draw(g.chance(1, 4) ? 60000 : 3000);
    }
    if (i && g.chance(1, 60)) ts += farGap(g);
    Measurement m; m.ts = ts;
    int what = g.weighted({10, 2, 1});
    if (what == 0) {
      RadioMeasurementData d;
      d.id = TransmitterId(g.pick(ids)); d.type = kind[d.id.value];
      if (mixed && (d.type == RT::WIFI || d.type == RT::WIFI_RTT)) d.type = g.pick({RT::WIFI, RT::WIFI_RTT});
      switch (g.draw(5)) { case 0: d.rssi = c.sigCutOffRss; break; case 1: d.rssi = c.sigCutOffRss + 0.5; break; case 2: d.rssi = g.pick({0.0, 5.0, -0.25, -0.0}); break; default: d.rssi = -(double)g.range(20, 110); }
      d.distance = g.real(negative ? -4 : 0, 30); d.power = -59; d.stddev = 1;
      m.data = d;
      bool known = false, kindOk = false;
      for (auto& l : L) { for (auto& t : l.txs) if (t.id == d.id.value) { known = true; kindOk = (t.type == TransmitterType::LOCATOR) == c.useTracking; break; } if (known) break; }   // first level that has it decides
      bool ok = c.useUnknownTransmitters || (known && kindOk);
      if (rssiMode) ok = ok && d.rssi < 0 && d.rssi > c.sigCutOffRss; else ok = ok && d.type == RT::WIFI_RTT;
      ok = ok && ((d.type == RT::WIFI || d.type == RT::WIFI_RTT) ? wifi : ble);
      if (ok) { if (!any) { any = true; lastOut = ts; } valid.push_back({ts, d}); cur = ts; lastSignal = ts; }
      NOTE(g, ts << " radio " << d.id.value << " kind " << (int)d.type << " rssi " << d.rssi << " dist " << d.distance << (ok ? "" : " (filtered)"));
    } else if (what == 1) { SensorMeasurementData d; d.type = SensorMeasurementData::Type::GYROSCOPE; d.values = Vector3d(i, 2, 3); m.data = d; NOTE(g, ts << " sensor"); }
    else { NmeaMeasurementData d; d.sentenceNumber = 1 + i % 4; d.satellitesNumber = i; m.data = d; NOTE(g, ts << " nmea"); }
    long long step = g.chance(1, 8) ? ts : 0;   // a step detected at this message
    if (step) lastStep = step;
    pp.updateMeasurements(m);
    REQUIRE("current time", pp.getCurrentTs() == ts, "current time " << pp.getCurrentTs() << " instead of " << ts);
    if (any) REQUIRE("last signal", pp.getLastSignalTs() == lastSignal, "last signal time " << pp.getLastSignalTs() << " instead of " << lastSignal);
    if (what == 1) { SensorMeasurement sm = pp.getValidSensor(); REQUIRE("sensor", sm.ts == ts && sm.data.values.x == i && sm.data.type == SensorMeasurementData::Type::GYROSCOPE, "sensor message not handed on"); }
    if (what == 2) { NmeaMeasurement nm = pp.getCurrentNmea(); REQUIRE("nmea", nm.ts == ts && nm.data.satellitesNumber == i && nm.data.sentenceNumber == 1 + i % 4, "satellite report not handed on"); }
    RadioMeasurementsData got = pp.extractRadioMeasurements(step);
    // ---- model
    struct E { double rssi, dist; RT type; };
    std::vector<std::pair<std::string, E>> exp;
    bool result = (any ? cur - lastOut : 0) >= shift;
    if (result) {
      if (any) lastOut = cur;
      std::map<std::string, std::vector<RadioMeasurementData>> by;
      for (size_t k = from; k < valid.size(); k++) by[valid[k].d.id.value].push_back(valid[k].d);
      for (auto& kv : by) {
        double sr = 0, sd = 0;
        for (auto& d : kv.second) { sr += d.rssi; sd += d.distance; }
        double mr = sr / kv.second.size(), md = sd / kv.second.size();
        int nr = 0; double rd = 0;
        for (auto& d : kv.second) if (d.type == RT::WIFI_RTT) { nr++; rd += d.distance; }
        if (nr) { md = rd / nr; if (nr != (int)kv.second.size()) g.label("scanned and ranged"); }   // only ranging states a distance
        if (kv.second.size() > 1) multi++;
        RT type = nr ? RT::WIFI_RTT : kv.second[0].type;
        if (type == RT::WIFI_RTT) md -= c.wiFiRttOffset;
        else for (auto& l : L) { bool f = false; for (auto& t : l.txs) if (t.id == kv.first) { md = std::exp((t.A - mr) / t.B); f = true; } if (f) break; }
        exp.push_back({kv.first, {mr, md, type}});
      }
      if (!exp.empty()) results++;
      bool still = c.useStops && lastStep > 0 && cur - lastStep > stop;
      if (still) retained++;
      else if (keep == 0) from = valid.size();
      else while (from < valid.size() && valid[from].ts < cur - keep) from++;
    }
    std::map<std::string, RadioMeasurementData> gm;
    for (auto& d : got) REQUIRE("one entry per transmitter", gm.insert({d.id.value, d}).second, "transmitter " << d.id.value << " appears twice");
    auto show = [&] { std::ostringstream o; for (auto& d : got) o << d.id.value << "=" << d.rssi << "/" << d.distance << " "; o << " expected: "; for (auto& e : exp) o << e.first << "=" << e.second.rssi << "/" << e.second.dist << " "; return o.str(); };
    size_t want = exp.size();
    if (c.useClosestAps) want = std::min<size_t>(want, c.numClosestAps);
    REQUIRE("number of readings", got.size() == want, "message " << i << " at " << ts << ": " << show());
    double weakest = 1e9;
    for (auto& d : got) weakest = std::min(weakest, d.rssi);
    for (auto& e : exp) {
      auto it = gm.find(e.first);
      if (it == gm.end()) { REQUIRE("closest kept", c.useClosestAps && e.second.rssi <= weakest + 1e-9, "message " << i << ": strongest readings expected, got " << show()); continue; }
      REQUIRE("mean strength", pbt::close(it->second.rssi, e.second.rssi, 1e-9), "message " << i << " at " << ts << ": " << show());
      REQUIRE("distance", pbt::close(it->second.distance, e.second.dist, 1e-6, 1e-9), "message " << i << " at " << ts << ": " << show());
      REQUIRE("kind", it->second.type == e.second.type, "kind of " << e.first << " changed");
      REQUIRE("power", it->second.power == -59, "power of " << e.first << " changed");
    }
    if (c.useClosestAps) for (size_t k = 1; k < got.size(); k++) REQUIRE("strongest first", got[k - 1].rssi >= got[k].rssi, "closest transmitters not in order of strength: " << show());
  }
  g.nontrivial(results >= 2 && multi >= 1);
  g.label("retained while still", retained > 0);
  g.label("crowded", dense); g.label("flood", flood);
  g.label("with overlap", keep > 0 && results >= 2);
}
static std::vector<pbt::Sub> subs() { return {{"window", window, 180000, 2500000}}; }
PBT_MAIN(subs)
