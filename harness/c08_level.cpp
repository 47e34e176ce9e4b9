// C08: level estimators against reference scores (recomputed from the map description) and a hysteresis automaton.
#include "mapgen.h"
#include "knn_model.h"
#include "src/level_estimator/level_estimator_radiomap.h"
#include "src/level_estimator/level_estimator_transmitters.h"
#include "src/level_estimator/level_history.h"
using namespace mg;
// Reported level: first detected one; then a level once it was detected five times since the last confirmation.
struct Hysteresis {
  std::string cur;
  std::vector<std::string> since;   // detections since the last confirmation
  bool confirmedOnce = false;
  std::string step(const std::string& det) {
    if (det.empty()) return cur;
    if (cur.empty()) cur = det;
    since.push_back(det);
    long n = std::count(since.begin(), since.end(), det);
    long need = (confirmedOnce && det == cur) ? 1 : 5;
    if (n >= need) { cur = det; since.clear(); confirmedOnce = true; }
    return cur;
  }
};
static std::vector<LevelSpec> makeLevels(G& g, bool positive) {   // positive: a survey that stores strengths without their sign
  std::vector<LevelSpec> L;
  int nl = 1 + (int)g.draw(3), sharedN = (int)g.draw(2); Namer name(g); bool many = g.chance(1, 60), rich = g.chance(1, 30);
  if (many) nl = 10 + (int)g.draw(3);
  std::vector<int> order = g.permutation(nl);
  for (int i = 0; i < nl; i++) {
    LevelSpec l;
    l.id = name("L", order[i]); l.lat0 = 50; l.lon0 = 10; l.W = l.H = 30; l.area.push_back({rect(0, 0, 30, 30), {}});
    int n = (int)g.draw(rich ? 20 : 5);
    for (int k = 0; k < n; k++) l.txs.push_back({name("t", i, k), g.uniform(1, 29), g.uniform(1, 29), 0, -(double)g.range(40, 90), 3, -59, TransmitterType::BEACON});
    for (int k = 0; k < sharedN; k++) if (g.boolean()) l.txs.push_back({name("s", k), g.uniform(1, 29), g.uniform(1, 29), 0, -(double)g.range(40, 90), 3, -59, TransmitterType::BEACON});
    int nr = rich && g.boolean() ? (int)g.draw(30) : g.small(5);
    std::vector<std::string> heard;
    for (auto& t : l.txs) heard.push_back(t.id);
    if (g.boolean()) heard.push_back("f1");   // heard here but placed nowhere
    for (int k = 0; k < nr; k++) {
      RpSpec r; r.id = name("r", i, k); r.x = g.uniform(1, 29); r.y = g.uniform(1, 29);
      for (auto& id : heard) if (g.chance(4, 5)) { SignalStatistics s; s.type = TransmitterType::BEACON; s.mean = positive ? g.uniform(40, 95) : -g.uniform(40, 95); s.variance = 1; s.nMeasurements = 5; r.fp[id] = s; }
      l.rps.push_back(r);
    }
    L.push_back(l);
  }
  return L;
}
static RadioMeasurementsData reading(G& g, const std::vector<LevelSpec>& L, const LevelSpec* fav) {
  std::set<std::string> ids;
  for (auto& l : L) for (auto& t : l.txs) if (g.chance(fav == &l ? 4 : 2, 5)) ids.insert(t.id);
  if (g.chance(1, 4)) ids.insert("stranger");
  if (g.chance(1, 4)) ids.insert("f1");
  if (g.chance(1, 12)) ids.clear();
  RadioMeasurementsData m;
  for (auto& id : ids) {
    RadioMeasurementData d; d.type = RadioMeasurementData::Type::BEACON; d.id = TransmitterId(id);
    d.rssi = -g.uniform(45, 95);
    if (fav) for (auto& t : fav->txs) if (t.id == id) d.rssi = -g.uniform(30, 60);
    if (fav && !fav->rps.empty() && g.boolean()) { auto& fp = g.pick(fav->rps).fp; if (fp.count(id)) d.rssi = -std::fabs(fp.at(id).mean) + (double)g.range(-2, 2); }
    if (g.chance(1, 6)) d.rssi = std::round(d.rssi);
    d.power = g.pick({-59.0, 0.0, 4.0, 0.5});
    m.push_back(d);
  }
  return m;
}
static std::string show(const RadioMeasurementsData& m) { std::ostringstream o; for (auto& d : m) o << d.id.value << "=" << d.rssi << " "; return o.str(); }
// best key; ambiguous when another candidate is as good up to rounding
static std::string best(const std::vector<std::pair<std::string, double>>& v) {
  const std::pair<std::string, double>* b = nullptr;
  for (auto& x : v) if (!b || x.second > b->second) b = &x;
  if (!b) return "";
  for (auto& x : v) if (&x != b && std::fabs(x.second - b->second) <= 1e-9 * std::max(1.0, std::fabs(b->second))) throw pbt::Discard();
  return b->first;
}
static std::string detectTx(const std::vector<LevelSpec>& L, const RadioMeasurementsData& m, bool power) {
  std::vector<std::pair<std::string, double>> v;
  for (auto& l : L) {
    double sum = 0, sumA = 0; int n = 0;
    for (auto& d : m) for (auto& t : l.txs) if (t.id == d.id.value) { sum += d.rssi; sumA += t.A; n++; }
    if (n) v.push_back({l.id, (sum / n + (power ? sumA / n : 0)) / (1 + 0.1 * n / m.size())});
  }
  return best(v);
}
static std::string detectRm(const std::vector<LevelSpec>& L, const RadioMeasurementsData& m, bool bestRp) {
  std::vector<std::pair<std::string, double>> v;
  for (auto& l : L) {
    double w = 0;
    if (bestRp) {
      RadioMeasurementsData own;   // only transmitters heard at this level's reference points count
      for (auto& kv : weights(l, m, true)) w = std::max(w, kv.second);
    } else {
      int matched = 0;
      for (auto& d : m) {
        double s = 0; int n = 0;
        for (auto& r : l.rps) { auto f = r.fp.find(d.id.value); if (f != r.fp.end()) { s += 1 / (std::fabs(std::fabs(d.rssi) - std::fabs(f->second.mean)) + 0.1); n++; } }
        if (n) { w += s / n; matched++; }
      }
      w *= matched;
    }
    if (w > 0) v.push_back({l.id, w});
  }
  return best(v);
}
static void run(G& g, bool radiomap) {
  bool positive = radiomap && g.chance(1, 20);
  auto L = makeLevels(g, positive);
  auto lc = std::make_shared<LevelCollector>();
  for (auto& l : L) lc->addGeoLevel(toGeoLevel(l));
  NavigationSettings s; auto& c = s.commonSettings;
  c.useTxPower = g.boolean(); c.useBestRefPointLevel = !positive && g.boolean();
  std::unique_ptr<LevelEstimator> est;
  if (radiomap) est.reset(new LevelEstimatorRadiomap(lc, s)); else est.reset(new LevelEstimatorTransmitters(lc, s));
  NOTE(g, (radiomap ? (c.useBestRefPointLevel ? "best reference point" : "radiomap") : c.useTxPower ? "transmitters with power" : "transmitters") << ", levels:");
  for (auto& l : L) { std::ostringstream o; for (auto& t : l.txs) o << " " << t.id << "(A " << t.A << ")"; o << " " << l.rps.size() << " reference points"; NOTE(g, "  " << l.id << o.str()); }
  Hysteresis h;
  int n = g.chance(1, 100) ? 200 + (int)g.draw(150) : 1 + g.small(24), changes = 0, empties = 0;
  const LevelSpec* fav = &g.pick(L);
  std::string prev;
  std::set<std::string> seen;
  for (int i = 0; i < n; i++) {
    if (g.chance(1, 5)) fav = &g.pick(L);
    auto m = reading(g, L, g.chance(1, 5) ? nullptr : fav);
    RadioMeasurementsData sh;
    for (int k : g.permutation((int)m.size())) sh.push_back(m[k]);
    std::string det = radiomap ? detectRm(L, sh, c.useBestRefPointLevel) : detectTx(L, sh, c.useTxPower);
    std::string want = h.step(det);
    std::string got = est->calculateLevel(sh, SensorMeasurement()).value;
    NOTE(g, i << ": " << show(sh) << " -> detected " << det << ", reported " << got);
    REQUIRE("reported level", got == want, "reading " << i << " (" << show(sh) << "): level '" << got << "' reported, best-supported is '" << det << "' and the reported one should be '" << want << "'");
    if (!prev.empty() && want != prev) changes++;
    if (det.empty()) empties++; else seen.insert(det);
    prev = want;
  }
  g.nontrivial(seen.size() >= 2);
  g.label("level changed", changes > 0);
  g.label("undetected readings", empties > 0);
}
static void transmitters(G& g) { run(g, false); }
static void radiomaps(G& g) { run(g, true); }
// detection sequences directly
static void history(G& g) {
  LevelHistory lh; Hysteresis h;
  int n = g.chance(1, 30) ? 100 + (int)g.draw(500) : 1 + g.small(60), k = 1 + (int)g.draw(3), changes = 0;
  std::string fav, prev; std::ostringstream o;
  for (int i = 0; i < n; i++) {
    if (i == 0 || g.chance(1, 6)) fav = std::string(1, 'A' + (char)g.draw(k));
    std::string det = g.chance(1, 8) ? "" : g.chance(1, 4) ? std::string(1, 'A' + (char)g.draw(k)) : fav;
    o << (det.empty() ? "-" : det);
    std::string want = h.step(det), got = lh.detectLevelUsingHistory(LevelId(det)).value;
    REQUIRE("hysteresis", got == want, "detections " << o.str() << ": level '" << got << "' instead of '" << want << "'");
    if (!prev.empty() && want != prev) changes++;
    prev = want;
  }
  NOTE(g, "detections " << o.str() << " changes " << changes);
  g.nontrivial(changes >= 1);
}
static std::vector<pbt::Sub> subs() { return {{"transmitters", transmitters, 60000, 1500000}, {"radiomaps", radiomaps, 60000, 1500000}, {"history", history, 60000, 1000000}}; }
PBT_MAIN(subs)
