// Random fingerprint maps and readings, and the position the fingerprint model expects (shared by C06 and C26).
#pragma once
#include "mapgen.h"
#include "knn_model.h"
#include "src/knn/knn_utils.h"
#include <navigine/navigation-core/navigation_settings.h>
namespace mg {
inline double sim(const TxSpec& t, double x, double y) { return t.A - t.B * std::log(std::max(0.5, std::hypot(x - t.x, y - t.y))); }
struct World { std::vector<LevelSpec> L; std::shared_ptr<LevelCollector> lc; bool positive = false; };
inline World world(G& g) {
  World w;
  int nl = 1 + (int)g.draw(2); Namer name(g); bool big = g.chance(1, 60);
  if (big && g.boolean()) nl = 10;
  for (int i = 0; i < nl; i++) {
    LevelSpec l;
    l.id = name("L", i); l.lat0 = 10 + i * 0.001; l.lon0 = 20;
    l.W = g.pick({20.0, 40.0, 60.0}); l.H = g.pick({15.0, 30.0});
    l.area.push_back({rect(0, 0, l.W, l.H), {}});
    int nt = 1 + g.sized(9, 40, 60), nr = g.chance(1, 10) ? (int)g.draw(3) : 3 + g.sized(9, 50, 60);
    if (big && i == nl - 1) { bool wide = g.boolean(); nt = wide ? 40 + (int)g.draw(80) : 10 + (int)g.draw(6); nr = wide ? 20 + (int)g.draw(20) : 100 + (int)g.draw(180); }
    for (int k = 0; k < nt; k++) l.txs.push_back({name("t", i, k), g.uniform(0, l.W), g.uniform(0, l.H), 0, -55, 8, 0, TransmitterType::BEACON});
    double noise = g.pick({0.0, 1.0, 6.0}), cut = g.pick({-100.0, -85.0, -75.0});
    for (int k = 0; k < nr; k++) {
      RpSpec r; r.id = name("r", i, k); r.x = g.uniform(0.5, l.W - 0.5); r.y = g.uniform(0.5, l.H - 0.5);
      for (auto& t : l.txs) { double m = sim(t, r.x, r.y) + noise * g.normal(); m = std::min(-20.0, m); if (m > cut && !g.chance(1, 10)) { SignalStatistics s; s.type = TransmitterType::BEACON; s.mean = m; s.variance = 1; s.nMeasurements = 10; r.fp[t.id] = s; } }
      l.rps.push_back(r);
    }
    w.L.push_back(l);
  }
  // a transmitter of one level heard (and mapped) on another one too
  if (nl > 1 && g.boolean()) for (auto& r : w.L[1].rps) { SignalStatistics s; s.type = TransmitterType::BEACON; s.mean = g.uniform(-95, -60); s.variance = 1; s.nMeasurements = 1; r.fp[w.L[0].txs[0].id] = s; }
  w.positive = g.chance(1, 20);   // some surveys store strengths without their sign
  if (w.positive) for (auto& l : w.L) for (auto& r : l.rps) for (auto& kv : r.fp) kv.second.mean = -kv.second.mean;
  w.lc = std::make_shared<LevelCollector>();
  for (auto& l : w.L) w.lc->addGeoLevel(toGeoLevel(l));
  return w;
}
inline RadioMeasurementsData reading(G& g, const World& w, const LevelSpec& l) {
  RadioMeasurementsData m;
  std::map<std::string, double> r;
  double x = g.uniform(-2, l.W + 2), y = g.uniform(-2, l.H + 2), noise = g.pick({0.0, 2.0, 8.0});
  if (!l.rps.empty() && g.chance(1, 4)) for (auto& kv : g.pick(l.rps).fp) r[kv.first] = -std::fabs(kv.second.mean);
  else for (auto& t : l.txs) if (g.chance(5, 6)) r[t.id] = std::min(-1.0, sim(t, x, y) + noise * g.normal());
  if (g.boolean()) for (auto& o : w.L) if (o.id != l.id) for (auto& t : o.txs) if (g.boolean()) r[t.id] = g.uniform(-90, -30);
  if (!r.empty() && g.chance(1, 8)) { auto it = r.begin(); std::advance(it, (int)g.draw(r.size() - 1)); it->second = -g.uniform(0.5, 12); }   // held against the transmitter
  if (g.chance(1, 3)) r["stranger"] = g.uniform(-90, -30);
  for (auto& kv : r) { RadioMeasurementData d; d.type = RadioMeasurementData::Type::BEACON; d.id = TransmitterId(kv.first); d.rssi = kv.second; m.push_back(d); }
  if (g.chance(1, 3)) { double pw = g.pick({-59.0, 4.0, 0.5, 20.0}); for (auto& d : m) d.power = g.chance(1, 4) ? 0 : pw; }
  return m;
}
inline std::string showMsr(const RadioMeasurementsData& m) { std::ostringstream o; for (auto& d : m) o << d.id.value << "=" << d.rssi << " "; return o.str(); }

// what the readings are expected to give: accept holds several positions when weights tie
struct Expected { bool solution = false; size_t known = 0; bool enough = false; std::vector<XY> accept; };
typedef std::map<LevelId, std::vector<RefPointsTriangle>> Triangles;
inline Expected expectPosition(const LevelSpec& l, const Level& level, const Triangles& tris, const RadioMeasurementsData& msr, const CommonSettings& c) {
  Expected e;
  std::set<std::string> known;
  for (auto& r : l.rps) for (auto& kv : r.fp) known.insert(kv.first);
  RadioMeasurementsData valid;
  for (auto& m : msr) if (known.count(m.id.value)) valid.push_back(m);
  auto W = weights(l, valid, c.useDiffMode);
  std::map<std::string, XY> at;
  for (auto& r : level.radiomap().referencePoints()) at[r.id.value] = {r.point.x, r.point.y};
  e.known = valid.size();
  e.enough = valid.size() >= c.minNumOfMeasurementsForPositionCalculation;
  e.solution = !msr.empty() && !known.empty() && e.enough && !W.empty();
  if (!e.solution) return e;
  if (c.useTriangles) {
    auto it = tris.find(level.id());
    if (it == tris.end() || it->second.empty()) { e.solution = false; return e; }
    double best = 0;
    auto sumw = [&](const RefPointsTriangle& t) { double r = 0; for (auto& p : {t.rp1, t.rp2, t.rp3}) { auto f = W.find(p.value); if (f != W.end()) r += f->second; } return r; };
    for (auto& t : it->second) best = std::max(best, sumw(t));
    if (best < 1e-12) { e.solution = false; return e; }
    for (auto& t : it->second) if (sumw(t) >= best * (1 - 1e-9)) {
      double x = 0, y = 0, n = sumw(t);
      for (auto& p : {t.rp1, t.rp2, t.rp3}) { auto f = W.find(p.value); if (f != W.end()) { x += f->second * at[p.value].first; y += f->second * at[p.value].second; } }
      e.accept.push_back({x / n, y / n});
    }
    return e;
  }
  if (c.kNeighbors == 0) { e.solution = false; return e; }
  std::vector<std::pair<double, std::string>> v;
  for (auto& kv : W) v.push_back({kv.second, kv.first});
  std::sort(v.rbegin(), v.rend());
  size_t k = std::min<size_t>(c.kNeighbors, v.size());
  if (k < v.size() && v[k - 1].first - v[k].first < 1e-9 * v[k].first) throw pbt::Discard();   // tie at the cut
  double x = 0, y = 0, n = 0;
  for (size_t i = 0; i < k; i++) { x += v[i].first * at[v[i].second].first; y += v[i].first * at[v[i].second].second; n += v[i].first; }
  e.accept.push_back({x / n, y / n});
  return e;
}
}  // namespace mg
