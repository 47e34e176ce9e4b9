// C28: whole-client metamorphic relations: other names, another place on earth, a turned or mirrored map, buildings elsewhere.
#include "e2e.h"
using namespace e2e;
typedef std::map<std::string, std::string> Names;
struct Case { World w; NavigationSettings s; std::vector<Measurement> m; };
static Case gen(G& g, bool sameFrame) {
  Case c; WorldOpt wo; wo.sameFrame = sameFrame; c.w = genWorld(g, wo); c.s = genSettings(g, c.w);
  if (c.s.commonSettings.sigAveragingTime == 0) c.s.commonSettings.sigAveragingTime = 1;   // otherwise every message repeats the averaging, each time as a new position, with other rounding errors
  StreamOpt so; so.steps = g.chance(1, 4); so.maxTicks = 40; c.m = genStream(g, c.w, so);
  if (c.m.empty()) g.discard();
  // readings of different transmitters are never equal: which of them is taken first is left open
  for (auto& m : c.m) if (auto r = boost::get<RadioMeasurementData>(&m.data)) { if (r->rssi < -1 && r->rssi > -99) r->rssi += g.uniform(-0.3, 0.3); r->distance += g.uniform(0, 0.1); }
  NOTE(g, show(c.s));
  return c;
}
static bool clash(const Case& c) {   // ties (nearly equal strengths, ranges, places): nothing says which comes first
  std::vector<std::pair<double, std::string>> v, d;
  for (auto& m : c.m) if (auto r = boost::get<RadioMeasurementData>(&m.data)) { v.push_back({r->rssi, r->id.value}); if (r->type == RT::WIFI_RTT) d.push_back({r->distance, r->id.value}); }
  for (auto* q : {&v, &d}) { std::sort(q->begin(), q->end()); for (size_t i = 1; i < q->size(); i++) if ((*q)[i].first - (*q)[i - 1].first < 1e-9 && (*q)[i].second != (*q)[i - 1].second) return true; }
  auto near = [](std::vector<XY> p) { for (size_t i = 0; i < p.size(); i++) for (size_t j = 0; j < i; j++) if (std::hypot(p[i].first - p[j].first, p[i].second - p[j].second) < 0.01) return true; return false; };
  for (auto& l : c.w.L) {
    std::vector<XY> p; for (auto& t : l.txs) p.push_back({t.x, t.y});
    if (near(p) || near(l.vertices)) return true;
    p.clear(); for (auto& r : l.rps) p.push_back({r.x, r.y});
    if (near(p)) return true;
  }
  return false;
}
// comparison of two runs; `back` takes a place of the second run to the first one's local metres
static void compare(G& g, const Case& c, const std::vector<NavigationOutput>& a, const std::vector<NavigationOutput>& b, const Names& levels, const std::function<XY(double, double)>& first, const std::function<XY(double, double)>& second, bool orientation, const char* key) {
  int ok = 0; for (auto& x : a) ok += x.status == NavigationStatus::OK;
  g.nontrivial(ok >= 2);
  std::set<std::string> seen; for (auto& x : a) if (x.status == NavigationStatus::OK) { seen.insert(x.posLevel.value); g.label(x.provider == Provider::INDOOR ? "indoor" : x.provider == Provider::GNSS ? "gnss" : "fused"); }
  g.label("several levels", seen.size() > 1);
  REQUIRE(key, a.size() == b.size(), b.size() << " outputs instead of " << a.size());
  for (size_t i = 0; i < a.size(); i++) {
    auto &x = a[i], &y = b[i];
    REQUIRE(key, x.status == y.status, "message " << i << " (" << show(c.m[i]) << "): " << show(x) << ", changed " << show(y));
    if (x.status != NavigationStatus::OK) continue;
    auto it = levels.find(x.posLevel.value); std::string want = it == levels.end() ? x.posLevel.value : it->second;
    XY p = first(x.posLatitude, x.posLongitude), q = second(y.posLatitude, y.posLongitude);
    double od = std::fabs(x.posOrientation - y.posOrientation); od = std::min(od, std::fabs(2 * PI_ - od));
    REQUIRE(key, y.posLevel.value == want && x.provider == y.provider && std::hypot(p.first - q.first, p.second - q.second) < 0.03 && std::fabs(x.posAltitude - y.posAltitude) < 1e-3 && std::fabs(x.posR - y.posR) < 1e-3 * (1 + x.posR) && (!orientation || od < 1e-4),
            "message " << i << " (" << show(c.m[i]) << "): " << show(x) << " at (" << p.first << "," << p.second << "), changed " << show(y) << " at (" << q.first << "," << q.second << ")");
  }
}
static std::string freshName(G& g, std::set<std::string>& used) {
  static const std::string alphabet = "abcXYZ019_- :/\xc3\xa4";
  for (;;) {
    std::string r; int n = 1 + g.small(12);
    for (int i = 0; i < n; i++) r += alphabet[g.draw(alphabet.size() - 1)];
    if (!used.empty()) switch (g.draw(11)) {   // names that differ little: at the end, at the start, in case, in zeros or blanks
      case 0: case 1: r = *used.begin() + r; break;
      case 2: r = "(7890,654,F7826DA6-4FA2-4E98-8024-BC5B71E0893E)/" + r; break;
      case 3: r += "/(7890,654,F7826DA6-4FA2-4E98-8024-BC5B71E0893E)"; break;
      case 4: r = *used.rbegin(); for (auto& ch : r) if (g.boolean()) ch = islower((unsigned char)ch) ? toupper(ch) : tolower(ch); break;
      case 5: r = (g.boolean() ? "0" : " ") + *used.rbegin(); break;
      default: break;
    }
    while (used.count(r)) r += "'";
    used.insert(r); return r;
  }
}
static void renamed(G& g) {
  Case c = gen(g, false); if (clash(c)) g.discard();
  c.s.commonSettings.useAltitude = false;   // ranges at the limit of consistency are taken in order (C24 decides the rest)
  Names lv, tx, rp; std::set<std::string> ul, ut, ur;
  for (auto& l : c.w.L) { lv[l.id] = freshName(g, ul); for (auto& t : l.txs) if (!tx.count(t.id)) tx[t.id] = freshName(g, ut); for (auto& r : l.rps) rp[r.id] = freshName(g, ur); }
  for (auto& m : c.m) if (auto r = boost::get<RadioMeasurementData>(&m.data)) if (!tx.count(r->id.value)) tx[r->id.value] = freshName(g, ut);
  Case d = c;
  d.s.levelsSettings.clear();
  for (auto& l : d.w.L) {
    d.s.levelsSettings[LevelId(lv[l.id])] = c.s.levelsSettings[LevelId(l.id)];
    l.id = lv[l.id];
    for (auto& t : l.txs) t.id = tx[t.id];
    for (auto& r : l.rps) { r.id = rp[r.id]; std::map<std::string, SignalStatistics> fp; for (auto& kv : r.fp) fp[tx[kv.first]] = kv.second; r.fp = fp; }
    // the order within a level's lists is as arbitrary as the names
    auto pm = g.permutation((int)l.txs.size()); std::vector<TxSpec> t; for (int i : pm) t.push_back(l.txs[i]); l.txs = t;
    auto pr = g.permutation((int)l.rps.size()); std::vector<RpSpec> r; for (int i : pr) r.push_back(l.rps[i]); l.rps = r;
    auto pe = g.permutation((int)l.edges.size()); std::vector<std::pair<int, int>> e; for (int i : pe) { e.push_back(l.edges[i]); if (g.boolean()) std::swap(e.back().first, e.back().second); } l.edges = e;
  }
  for (auto& m : d.m) if (auto r = boost::get<RadioMeasurementData>(&m.data)) r->id = TransmitterId(tx[r->id.value]);
  note(g, c.w); if (g.wantNote) for (auto& kv : tx) NOTE(g, "transmitter " << kv.first << " = '" << kv.second << "'");
  if (g.wantNote) for (auto& kv : lv) NOTE(g, "level " << kv.first << " = '" << kv.second << "'");
  auto a = run(collect(c.w), c.s, c.m), b = run(collect(d.w), d.s, d.m);
  note(g, c.m, a); if (getenv("C28_BOTH")) { NOTE(g, "changed:"); note(g, d.m, b); }
  auto loc = [&](double la, double lo) { XY p; toLocal(c.w.L[0].lat0, c.w.L[0].lon0, la, lo, p.first, p.second); return p; };
  compare(g, c, a, b, lv, loc, loc, true, "names");
}
static void moved(Case& d, const Case& c, double lat, double lon) {
  for (auto& l : d.w.L) { l.lat0 = lat; l.lon0 = lon; }
  for (auto& m : d.m) if (auto s = boost::get<SensorMeasurementData>(&m.data)) if (s->type == ST::LOCATION) { double x, y, a, b; toLocal(c.w.L[0].lat0, c.w.L[0].lon0, s->values.x, s->values.y, x, y); toGeo(lat, lon, x, y, a, b); s->values.x = a; s->values.y = b; }
}
static void place(G& g) {
  Case c = gen(g, true); if (clash(c)) g.discard();
  double lat = g.weighted({1, 1, 1, 1, 4}) == 4 ? g.uniform(-75, 75) : g.pick({0.0, -0.0003, 65.0, -45.0}), lon = g.pick({10.0, -0.0004, 0.0, -179.9999, 179.99, -179.9, 120.0, -77.0});
  Case d = c; moved(d, c, lat, lon);
  note(g, c.w); NOTE(g, std::setprecision(12) << "moved to " << lat << "," << lon);
  auto a = run(collect(c.w), c.s, c.m), b = run(collect(d.w), d.s, d.m);
  note(g, c.m, a); if (getenv("C28_BOTH")) { NOTE(g, "changed:"); note(g, d.m, b); }
  compare(g, c, a, b, {}, [&](double la, double lo) { XY p; toLocal(c.w.L[0].lat0, c.w.L[0].lon0, la, lo, p.first, p.second); return p; }, [&](double la, double lo) { if (lo - lon > 180) lo -= 360; if (lon - lo > 180) lo += 360; XY p; toLocal(lat, lon, la, lo, p.first, p.second); return p; }, true, "place");
}
static XY turnBy(int k, const XY& p) {   // 0..3 quarter turns, 4..7 mirrored first
  double x = k >= 4 ? -p.first : p.first, y = p.second;
  for (int i = 0; i < k % 4; i++) { double t = x; x = -y; y = t; }
  return {x, y};
}
static XY turnBack(int k, const XY& p) { double x = p.first, y = p.second; for (int i = 0; i < k % 4; i++) { double t = x; x = y; y = -t; } return {k >= 4 ? -x : x, y}; }
static void turn(G& g) {
  Case c = gen(g, true); if (clash(c)) g.discard();
  c.s.commonSettings.useTriangles = false;   // flat triangles at the hull may or may not be found (C05)
  moved(c, Case(c), 0, 10); int k = 1 + (int)g.draw(6);
  Case d = c;
  for (auto& l : d.w.L) {
    auto T = [&](XY& p) { p = turnBy(k, p); };
    for (auto& p : l.area) { for (auto& q : p.outer) T(q); for (auto& in : p.inners) for (auto& q : in) T(q); }
    for (auto& t : l.txs) { XY p = turnBy(k, {t.x, t.y}); t.x = p.first; t.y = p.second; }
    for (auto& r : l.rps) { XY p = turnBy(k, {r.x, r.y}); r.x = p.first; r.y = p.second; }
    for (auto& v : l.vertices) T(v);
  }
  for (auto& m : d.m) if (auto s = boost::get<SensorMeasurementData>(&m.data)) if (s->type == ST::LOCATION) { XY p; toLocal(0, 10, s->values.x, s->values.y, p.first, p.second); p = turnBy(k, p); double la, lo; toGeo(0, 10, p.first, p.second, la, lo); s->values.x = la; s->values.y = lo; }
  note(g, c.w); NOTE(g, "turned by " << k % 4 << " quarters" << (k >= 4 ? ", mirrored" : ""));
  auto a = run(collect(c.w), c.s, c.m), b = run(collect(d.w), d.s, d.m);
  note(g, c.m, a); if (getenv("C28_BOTH")) { NOTE(g, "changed:"); note(g, d.m, b); }
  auto loc = [&](double la, double lo) { XY p; toLocal(0, 10, la, lo, p.first, p.second); return p; };
  compare(g, c, a, b, {}, loc, [&](double la, double lo) { return turnBack(k, loc(la, lo)); }, false, "direction");
}
static void elsewhere(G& g) {
  Case c = gen(g, false);
  c.s.commonSettings.useBarometer = false; c.s.commonSettings.useGpsOutsideMap = false;   // neighbouring floors, and the level of a fix outside all of them, come from the list of levels
  Case d = c; int n = 1 + (int)g.draw(2); World far = genWorld(g);
  for (int i = 0; i < (int)far.L.size() && i < n; i++) {
    LevelSpec l = far.L[i]; l.id = "far" + std::to_string(i); l.lat0 = g.pick({-33.0, 51.5, 50.0}); l.lon0 = g.pick({151.0, -70.0, 12.0});
    for (auto& t : l.txs) t.id = "far_" + t.id;
    for (auto& r : l.rps) { r.id = g.boolean() ? r.id : "far_" + r.id; std::map<std::string, SignalStatistics> fp; for (auto& kv : r.fp) fp["far_" + kv.first] = kv.second; r.fp = fp; }
    d.w.L.insert(d.w.L.begin() + g.draw(d.w.L.size()), l);
    if (g.boolean()) d.s.levelsSettings[LevelId(l.id)] = LevelSettings();
  }
  note(g, c.w);
  auto a = run(collect(c.w), c.s, c.m), b = run(collect(d.w), d.s, d.m);
  note(g, c.m, a); if (getenv("C28_BOTH")) { NOTE(g, "changed:"); note(g, d.m, b); }
  auto loc = [&](double la, double lo) { XY p; toLocal(c.w.L[0].lat0, c.w.L[0].lon0, la, lo, p.first, p.second); return p; };
  compare(g, c, a, b, {}, loc, loc, true, "elsewhere");
}
static std::vector<pbt::Sub> subs() { return {{"rename", renamed, 8000, 150000}, {"place", place, 6000, 100000}, {"turn", turn, 6000, 100000}, {"elsewhere", elsewhere, 4000, 80000}}; }
PBT_MAIN(subs)
