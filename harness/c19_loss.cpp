// C19: what happens when radio signals stop, the user stands still, and signals return.
#include "e2e.h"
#include "src/navigation_client_impl.h"
using namespace e2e;
struct Loss {
  World w; NavigationSettings s; std::vector<Measurement> m; std::vector<bool> signal, fix; std::vector<std::string> level;   // level[i]: level of a continuous signal phase
  long long noSig, noAct, dead, window;
};
// phases of signals of one level and of silence; other messages at least every second
static Loss gen(G& g, bool satellites) {
  Loss c; WorldOpt wo; wo.disjoint = satellites; c.w = genWorld(g, wo); c.s = genSettings(g, c.w); auto& k = c.s.commonSettings;
  for (auto& l : c.w.L) for (auto& t : l.txs) t.type = TransmitterType::BEACON;
  k.useBarometer = false; k.useUnknownTransmitters = false; k.useStops = g.chance(1, 5); k.useGpsOutsideMap = false; k.useAltitude = false; k.useGpsSigmaFilter = false; k.minNumSats = 0;
  k.noSignalTimeThreshold = g.pick({10LL, 3LL, 35LL}); k.noActionTimeThreshold = g.pick({20LL, 2LL, 6LL}); k.deadReckoningTime = g.pick({5.0, 2.0, 30.0}); k.sigAveragingTime = g.pick({1.0, 2.0, 0.5}); k.sigCutOffRss = -100;
  k.signalsToUse = CommonSettings::SignalsToUse::BOTH; k.useClosestAps = false; k.minNumOfMeasurementsForPositionCalculation = (unsigned)g.draw(1); k.gpsValidTimeWindowSec = g.pick({1.0, 5.0}); k.maxGpsDeviation = std::numeric_limits<double>::infinity();
  c.noSig = 1000 * k.noSignalTimeThreshold; c.noAct = 1000 * k.noActionTimeThreshold; c.dead = (long long)(1000 * k.deadReckoningTime);
  c.window = (long long)(1000 * k.sigAveragingTime); if (k.sigWindowShift > 0 && k.sigWindowShift <= k.sigAveragingTime) c.window = (long long)(1000 * k.sigWindowShift);
  long long ts = g.pick({100000LL, 1700000000000LL}), lastSig = ts; bool walk = false; double ph = 0;
  auto add = [&](const Measurement& x, bool sig, bool fx, const std::string& lv) { c.m.push_back(x); c.signal.push_back(sig); c.fix.push_back(fx); c.level.push_back(lv); };
  auto acc = [&](long long upto) { while (ts + 40 <= upto) { ts += 40; ph += 2 * PI_ * 40 / 560; add(sensor(ts, ST::ACCELEROMETER, 0.1, 0.1, 9.8 + 3.2 * std::sin(ph)), false, false, ""); } ts = std::max(ts, upto); };
  std::map<std::string, RT> kind; for (auto& l : c.w.L) for (auto& t : l.txs) if (!kind.count(t.id)) kind[t.id] = g.chance(1, 2) ? RT::BEACON : g.pick({RT::BLUETOOTH, RT::EDDYSTONE, RT::WIFI, RT::WIFI_RTT});
  int np = 1 + g.small(6);
  size_t lv = g.draw(c.w.L.size() - 1);
  for (int p = 0; p < np; p++) {
    walk = g.chance(1, 3);
    if (!c.w.L[lv].txs.empty() && g.chance(3, 5)) {
      if (g.chance(1, 3)) lv = g.draw(c.w.L.size() - 1);
      auto& l = c.w.L[lv]; double x = g.real(1, l.W - 1), y = g.real(1, l.H - 1);
      int n = 1 + g.small(20); long long step = g.pick({500LL, 200LL, 1000LL});
      for (int i = 0; i < n; i++) {
        if (walk) acc(ts + step); else ts += step;
        for (auto& t : l.txs) { add(radio(ts, t.id, std::max(-99.0, std::min(-1.0, sim(t, x, y))), kind[t.id]), true, false, l.id); lastSig = ts; }
      }
    } else {
      long long len = 0;
      switch (g.draw(4)) { case 0: len = c.dead; break; case 1: len = c.noSig; break; case 2: len = c.noAct; break; case 3: len = (long long)g.draw(4000); break; default: len = c.noSig + (long long)g.draw(5000); }
      long long end = std::max(ts, lastSig + len + (long long)g.range(-1, 1));
      long long step = g.pick({500LL, 1000LL, 333LL});
      while (ts < end) {
        long long nt = std::min(end, ts + step);
        if (walk) acc(nt); else ts = nt;
        int kind = (int)g.draw(satellites ? 4 : 2);
        if (kind == 0) add(radio(ts, "stranger", -50), false, false, "");
        else if (kind == 1) add(sensor(ts, ST::BAROMETER, 1000, 0, 0), false, false, "");
        else if (kind == 2) add(radio(ts, c.w.L[lv].txs[0].id, -100.5), false, false, "");   // below the cut-off
        else { auto& l = c.w.L[lv]; double a, b; toGeo(l.lat0, l.lon0, g.real(1, l.W - 1), g.real(1, l.H - 1), a, b); add(sensor(ts, ST::LOCATION, a, b, g.pick({3.0, 10.0})), false, true, ""); }
        if (g.chance(1, 3)) { add(sensor(ts, ST::GYROSCOPE, 0, 0, 0.1), false, false, ""); }
      }
      ts = end;
    }
  }
  if (c.m.empty()) g.discard();
  return c;
}
static void judge(G& g, bool satellites) {
  Loss c = gen(g, satellites); auto& k = c.s.commonSettings;
  auto lc = collect(c.w);
  NavigationClientImpl cl(lc, c.s);
  auto out = cl.navigate(c.m); auto st = cl.getStates();
  note(g, c.w); NOTE(g, show(c.s) << " no action " << k.noActionTimeThreshold << " window " << c.window); note(g, c.m, out);
  if (out.size() != c.m.size() || st.size() != c.m.size()) g.discard();   // C16
  long long sig = 0, step = 0, run = 0; bool known = false; int lost = 0, dead = 0, back = 0, raw = 0, actionLost = 0; std::string cur;
  const Measurement* fix = nullptr; bool sat = false;   // a satellite position may be in hand
  for (size_t i = 0; i < out.size(); i++) {
    auto& m = c.m[i]; auto& o = out[i]; long long t = m.ts;
    if (c.signal[i]) { if (c.level[i] != cur || (i && t - sig > 1000)) run = t; cur = c.level[i]; sig = t; }
    if (st[i].getStepCounter() > 0) step = t;
    if (c.fix[i]) { fix = &m; sat = true; }
    bool silent = t - sig >= c.noSig, idle = step > 0 && t - sig >= c.noAct && t - step >= c.noAct, withdrawn = silent || idle;
    bool noSat = !sat || !fix || t - fix->ts > (long long)(1000 * k.gpsValidTimeWindowSec);
    if (withdrawn) {
      lost++; actionLost += !silent;
      const char* why = silent ? "no signal" : "no signal and no step";
      if (noSat) {
        bool had = i && out[i - 1].status == NavigationStatus::OK;
        if (had) REQUIRE("last position kept", show(o).substr(0, show(o).find(" orientation")) == show(out[i - 1]).substr(0, show(out[i - 1]).find(" orientation")), "message " << i << ": " << why << " for " << t - sig << " ms, position changed from " << show(out[i - 1]) << " to " << show(o));
        else REQUIRE("level withdrawn", o.status == NavigationStatus::NO_LEVEL, "message " << i << ": " << why << " for " << t - sig << " ms: " << show(o));
      } else if (c.fix[i]) {
        raw++;
        double e = std::max(std::fabs(o.posLatitude - boost::get<SensorMeasurementData>(m.data).values.x), std::fabs(o.posLongitude - boost::get<SensorMeasurementData>(m.data).values.y));
        REQUIRE("satellite position without a level", o.status == NavigationStatus::OK && o.provider == Provider::GNSS && e < 1e-7, "message " << i << " (" << show(m) << "): " << why << " for " << t - sig << " ms, satellite fix reported as " << show(o));
      } else REQUIRE("satellite position kept", o.status == NavigationStatus::OK, "message " << i << ": " << show(o) << " within the validity time of the last fix");
    } else {
      if (known) REQUIRE("level kept", o.status != NavigationStatus::NO_LEVEL, "message " << i << ": " << show(o) << " after " << t - sig << " ms without signal");
      if (o.status == NavigationStatus::OK && o.provider == Provider::INDOOR && known && !(k.useStops && satellites)) REQUIRE("dead reckoning", t - sig < c.dead, "message " << i << ": last signal " << t - sig << " ms ago but reported " << show(o));
      if (known && !satellites && t - sig >= c.dead) { dead++; REQUIRE("error while dead", o.status != NavigationStatus::OK, "message " << i << ": " << show(o)); }
    }
    if (o.status != NavigationStatus::NO_LEVEL && !withdrawn) known = true;
    // return of the signal: zone positioning has a position of that level with every averaged set
    if (c.signal[i] && !satellites && k.useAlgorithm != CommonSettings::UseAlgorithm::KNN && !k.useStops && !k.useRadiomap && t - run >= 7 * std::max(c.window, 1000LL) + (long long)(1000 * k.sigAveragingTime)) {
      bool shared = false; for (auto& l : c.w.L) if (l.id != c.level[i]) for (auto& x : l.txs) for (auto& y : find(c.w, c.level[i])->txs) shared = shared || x.id == y.id;
      if (!shared) { back++; REQUIRE("position restored", o.status == NavigationStatus::OK && o.posLevel.value == c.level[i] && o.provider == Provider::INDOOR, "message " << i << ": signals of level " << c.level[i] << " since " << run << " but reported " << show(o)); }
    }
  }
  g.nontrivial(lost > 0 || dead > 0);
  g.label("signal lost", lost > 0); g.label("no action", actionLost > 0); g.label("dead reckoning ended", dead > 0); g.label("signal returned", back > 0); g.label("raw satellite position", raw > 0);
}
static void loss(G& g) { judge(g, false); }
static void satellite(G& g) { judge(g, true); }
static std::vector<pbt::Sub> subs() { return {{"loss", loss, 10000, 200000}, {"satellite", satellite, 8000, 150000}}; }
PBT_MAIN(subs)
