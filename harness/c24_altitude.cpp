// C24: altitude trilateration: frame and order independence, and the documented sum against an own least-squares solution.
#include "e2e.h"
#include "src/trilateration.h"
using namespace e2e;
typedef long double LD;
struct Tx { std::string id; double x, y, z; };
struct Ms { std::string id; double d; };
static Level mkLevel(const std::vector<Tx>& t) {
  Level l(LevelId("A"), GeoPoint(50, 10));
  XYZTransmitters v;
  for (auto& q : t) v.emplace_back(TransmitterId(q.id), XYZPoint(q.x, q.y, q.z), PathlossModel{-55, 8, 0}, TransmitterType::BEACON);
  l.addTransmitters(v);
  return l;
}
static boost::optional<double> altitude(const std::vector<Tx>& t, const std::vector<Ms>& m) {
  Level l = mkLevel(t);
  RadioMeasurementsData r;
  for (auto& q : m) { RadioMeasurementData d; d.id = TransmitterId(q.id); d.distance = q.d; d.rssi = -60; d.type = RT::WIFI_RTT; r.push_back(d); }
  Trilateration w;
  return w.calculateAltitude(l, r);
}
// reference; discards cases whose outcome hangs on rounding
struct Ref { bool some = false; LD value = 0; LD tol = 0; size_t used = 0; };
static Ref model(const std::vector<Tx>& tx, const std::vector<Ms>& ms) {
  struct P { LD x, y, z, d; std::string id; };
  std::vector<P> in, use;
  for (auto& m : ms) for (auto& t : tx) if (t.id == m.id) in.push_back({t.x, t.y, t.z, m.d, m.id});
  std::sort(in.begin(), in.end(), [](const P& a, const P& b) { return a.d != b.d ? a.d < b.d : a.id < b.id; });
  // nearest first; a sphere that does not reach one already kept is left out
  for (auto& p : in) {
    bool ok = true;
    for (auto& q : use) { LD gap = sqrtl((p.x - q.x) * (p.x - q.x) + (p.y - q.y) * (p.y - q.y) + (p.z - q.z) * (p.z - q.z)) - p.d - q.d; if (fabsl(gap) < 1e-7) throw pbt::Discard(); ok = ok && gap <= 0; }
    if (ok) use.push_back(p);
  }
  Ref r; r.used = use.size();
  if (use.size() < 4) return r;
  // least squares of the differences to the nearest one, minimum norm where all heights are equal
  bool flat = true; for (auto& p : use) flat = flat && p.z == use[0].z;
  int n = flat ? 2 : 3;
  LD N[3][4] = {}, size = 0;
  for (size_t i = 1; i < use.size(); i++) {
    LD a[3] = {use[i].x - use[0].x, use[i].y - use[0].y, use[i].z - use[0].z};
    LD b = (use[0].d * use[0].d - use[i].d * use[i].d + a[0] * a[0] + a[1] * a[1] + a[2] * a[2]) / 2;
    for (int k = 0; k < n; k++) { size = std::max(size, fabsl(a[k])); for (int j = 0; j < n; j++) N[k][j] += a[k] * a[j]; N[k][3] += a[k] * b; }
  }
  LD sol[3] = {};
  for (int c = 0; c < n; c++) {   // Cholesky-like elimination with a conditioning guard
    int p = c; for (int k = c; k < n; k++) if (fabsl(N[k][c]) > fabsl(N[p][c])) p = k;
    if (size < 0.1L || fabsl(N[p][c]) < 1e-5L * size * size) throw pbt::Discard();
    for (int j = 0; j < 4; j++) std::swap(N[p][j], N[c][j]);
    for (int k = 0; k < n; k++) if (k != c) { LD f = N[k][c] / N[c][c]; for (int j = 0; j < 4; j++) N[k][j] -= f * N[c][j]; }
  }
  for (int c = 0; c < n; c++) sol[c] = N[c][3] / N[c][c];
  LD x = sol[0] + use[0].x, y = sol[1] + use[0].y;
  for (auto& p : use) {
    LD s = p.d * p.d - (x - p.x) * (x - p.x) - (y - p.y) * (y - p.y);
    if (fabsl(s) < 1e-3) throw pbt::Discard();
    if (s > 0) { r.some = true; r.value += (p.z + sqrtl(s)) / p.d; r.tol += 1e-5L / p.d; }
  }
  return r;
}
struct Case { std::vector<Tx> tx; std::vector<Ms> ms; bool exact; LD x, y, z; };
static Case gen(G& g) {
  Case c;
  int n = g.chance(1, 30) ? 11 + (int)g.draw(25) : (int)g.range(3, 10);
  bool flat = g.chance(1, 3);
  double H = g.pick({3.0, 10.0, 0.0}), S = g.pick({20.0, 8.0, 100.0});
  bool quant = g.chance(1, 4);   // ranging in whole steps: equal distances
  for (int i = 0; i < n; i++) {
    Tx t{"t" + std::to_string(n > 10 ? i : (i * 7 + 3) % 11), g.uniform(-S, S), g.uniform(-S, S), flat ? H : g.real(0, 6)};
    if (quant) { t.x = std::round(t.x); t.y = std::round(t.y); }
    c.tx.push_back(t);
  }
  c.x = g.uniform(-S, S); c.y = g.uniform(-S, S); c.z = g.pick({1.2, 8.0, -2.0}) + g.real(-0.5, 0.5);
  int err = g.weighted({4, 3, 2});   // exact, noisy, wild
  c.exact = err == 0 && !quant;
  for (auto& t : c.tx) {
    if (c.tx.size() > 4 && g.chance(1, 8)) continue;
    LD dx = c.x - t.x, dy = c.y - t.y, dz = c.z - t.z;
    double d = (double)sqrtl(dx * dx + dy * dy + dz * dz);
    if (err == 1) d = std::fabs(d + g.normal() * 1.0) + 0.1;
    if (err == 2) d = g.chance(1, 3) ? d * g.real(0.2, 2) + 0.1 : d;
    if (quant) d = std::max(1.0, std::round(d));
    c.ms.push_back({t.id, std::max(0.05, d)});
  }
  return c;
}
static std::string show(const Case& c) { std::ostringstream o; o << std::setprecision(17); for (auto& t : c.tx) { o << t.id << " (" << t.x << "," << t.y << "," << t.z << ")"; for (auto& m : c.ms) if (m.id == t.id) o << " range " << m.d; o << "; "; } return o.str(); }
static std::string show(const boost::optional<double>& v) { return v ? pbt::str(*v) : std::string("none"); }
static void formula(G& g) {
  Case c = gen(g);
  NOTE(g, show(c));
  Ref r = model(c.tx, c.ms);
  auto v = altitude(c.tx, c.ms);
  g.label("none: too few consistent", r.used < 4); g.label("some left out", r.used >= 4 && r.used < c.ms.size()); g.label("exact", c.exact);
  g.nontrivial(r.some);
  REQUIRE("exists", !!v == r.some, "altitude " << show(v) << " with " << r.used << " consistent ranges");
  if (!v) return;
  REQUIRE("value", std::fabs(*v - (double)r.value) < (double)r.tol + 1e-6 * std::fabs(*v), "altitude " << *v << " instead of " << (double)r.value << " from " << r.used << " ranges");
  if (c.exact) {   // independent of any solving: the position is known
    LD e = 0; bool skip = r.used != c.ms.size(); LD tol = 0;
    bool flat = true; for (auto& t : c.tx) flat = flat && t.z == c.tx[0].z;
    for (auto& m : c.ms) for (auto& t : c.tx) if (t.id == m.id) { LD dz = fabsl(c.z - t.z); if (dz < 0.1) skip = true; e += (t.z + dz) / m.d; tol += 1e-4L / m.d; }
    REQUIRE("all exact ranges used", r.used == c.ms.size(), "only " << r.used << " of " << c.ms.size() << " exact ranges are consistent");
    if (!skip) REQUIRE("exact", std::fabs(*v - (double)e) < (double)tol, "altitude " << *v << " instead of " << (double)e << " with exact ranges");
  }
}
static void relations(G& g) {
  Case c = gen(g);
  auto perm = g.permutation((int)c.ms.size()), tperm = g.permutation((int)c.tx.size());
  double dx = g.real(-5000, 5000), dy = g.real(-5000, 5000), ang = g.real(-3.2, 3.2);
  int others = 1 + (int)g.draw(3);
  NOTE(g, show(c) << " shift " << dx << "," << dy << " turn " << ang);
  Ref r = model(c.tx, c.ms);
  auto v = altitude(c.tx, c.ms);
  g.nontrivial(r.some);
  auto same = [&](const boost::optional<double>& w) { return !!v == !!w && (!v || std::fabs(*v - *w) < (double)r.tol + 1e-6 * std::fabs(*v)); };
  Case p = c; for (size_t i = 0; i < perm.size(); i++) p.ms[i] = c.ms[perm[i]]; for (size_t i = 0; i < tperm.size(); i++) p.tx[i] = c.tx[tperm[i]];
  auto w = altitude(p.tx, p.ms);
  REQUIRE("order", same(w), "altitude " << show(v) << " became " << show(w) << " in another order");
  Case q = c; for (auto& t : q.tx) { t.x += dx; t.y += dy; }
  w = altitude(q.tx, q.ms);
  REQUIRE("shift", same(w), "altitude " << show(v) << " became " << show(w) << " after a horizontal shift of the map");
  q = c; for (auto& t : q.tx) { LD x = t.x * cosl(ang) - t.y * sinl(ang), y = t.x * sinl(ang) + t.y * cosl(ang); t.x = (double)x; t.y = (double)y; }
  w = altitude(q.tx, q.ms);
  REQUIRE("turn", same(w), "altitude " << show(v) << " became " << show(w) << " after turning the map");
  q = c; for (auto& t : q.tx) std::swap(t.x, t.y);
  w = altitude(q.tx, q.ms);
  REQUIRE("mirror", same(w), "altitude " << show(v) << " became " << show(w) << " with the axes exchanged");
  q = c; for (int i = 0; i < others; i++) q.ms.insert(q.ms.begin() + g.draw(q.ms.size()), Ms{"other" + std::to_string(i), g.real(0.1, 50)});
  w = altitude(q.tx, q.ms);
  REQUIRE("other levels", same(w), "altitude " << show(v) << " became " << show(w) << " with ranges of transmitters of other levels");
}
// the client reports the altitude of the readings of the position's level
static void client(G& g) {
  int n = (int)g.range(3, 8);
  World w; LevelSpec l; l.id = "A"; l.lat0 = 50; l.lon0 = 10; l.W = l.H = 30; l.area.push_back({rect(0, 0, 30, 30), {}});
  double px = g.uniform(3, 27), py = g.uniform(3, 27), pz = 1.3;
  Case c;
  double offset = g.pick({0.0, -1.5, 2.0});
  for (int i = 0; i < n; i++) { TxSpec t{"t" + std::to_string(i), g.uniform(0, 30), g.uniform(0, 30), 2 + g.real(0, 2), -55, 8, 0, TransmitterType::WIFI}; l.txs.push_back(t); c.tx.push_back({t.id, t.x, t.y, t.alt}); }
  w.L.push_back(l);
  if (g.boolean()) { LevelSpec u = l; u.id = "B"; u.altitude = 50; u.txs.clear(); for (int i = 0; i < 2; i++) u.txs.push_back({"u" + std::to_string(i), g.uniform(0, 30), g.uniform(0, 30), 1, -55, 8, 0, TransmitterType::WIFI}); w.L.push_back(u); }
  NavigationSettings s; auto& k = s.commonSettings;
  k.useAltitude = !g.chance(1, 6); k.useAlgorithm = CommonSettings::UseAlgorithm::ZONES; k.sigAveragingTime = 1; k.sigWindowShift = 1; k.measurementType = CommonSettings::MeasurementType::DISTANCE_V1; k.wiFiRttOffset = offset; k.signalsToUse = CommonSettings::SignalsToUse::BOTH;
  for (auto& q : w.L) s.levelsSettings[LevelId(q.id)] = LevelSettings();
  std::vector<Measurement> m; std::vector<Measurement> tail;
  long long ts = 100000;
  std::map<std::string, std::vector<double>> got;
  auto add = [&](const std::string& id, double d, double rssi) { m.push_back(radio(ts, id, rssi, RT::WIFI_RTT, d)); got[id].push_back(d); };
  for (int i = 0; i < n; i++) {
    auto& t = c.tx[i];
    double d = std::sqrt((px - t.x) * (px - t.x) + (py - t.y) * (py - t.y) + (pz - t.z) * (pz - t.z)) + offset;
    int rep = 1 + (int)g.draw(2);
    for (int j = 0; j < rep; j++) { add(t.id, d + 0.3 * g.normal(), -50 - i); if (i + 1 < n || j + 1 < rep) ts += 1 + (long long)g.draw(20); }
    if (w.L.size() > 1 && i < 2) add("u" + std::to_string(i), 10 + offset, -90);
  }
  ts = 101000; add(c.tx[0].id, got[c.tx[0].id][0], -50);
  for (auto& kv : got) { double sum = 0; for (double d : kv.second) sum += d; c.ms.push_back({kv.first, sum / kv.second.size() - offset}); }
  auto out = run(collect(w), s, m);
  e2e::note(g, w); e2e::note(g, m, out);
  const NavigationOutput& o = out.back();
  REQUIRE("position", o.status == NavigationStatus::OK && o.posLevel.value == "A", "no position on the level of the readings: " << e2e::show(o));
  for (size_t i = 0; i + 1 < out.size(); i++) REQUIRE("no reading, no altitude", out[i].posAltitude == 0, "an altitude before the first window is complete");
  if (!k.useAltitude) { REQUIRE("switched off", o.posAltitude == 0, "altitude although it is switched off"); return; }
  for (auto& q : c.ms) if (q.d < 0.3) throw pbt::Discard();
  Ref r = model(c.tx, c.ms);
  g.nontrivial(r.some);
  if (!r.some) REQUIRE("no altitude", o.posAltitude == 0, "altitude " << o.posAltitude << " from " << r.used << " consistent ranges");
  else REQUIRE("altitude of the level", std::fabs(o.posAltitude - (double)r.value) < 1e-3 * (1 + fabsl(r.value)), "altitude " << o.posAltitude << " instead of " << (double)r.value);
}
static std::vector<pbt::Sub> subs() { return {{"formula", formula, 150000, 3000000}, {"relations", relations, 40000, 800000}, {"client", client, 10000, 200000}}; }
PBT_MAIN(subs)
