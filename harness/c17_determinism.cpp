// C17: whole-client metamorphic relations: repetition with different memory contents, other clients, batching, time shift,
// out-of-order messages, messages that carry no information.
#include "e2e.h"
using namespace e2e;
#include "fill.h"

static bool same(const NavigationOutput& a, const NavigationOutput& b, bool exact) {
  if (a.status != b.status) return false;
  if (a.status != NavigationStatus::OK) return true;
  auto eq = [&](double x, double y, double tol) { return x == y || (!exact && std::fabs(x - y) <= tol); };
  double od = std::fabs(a.posOrientation - b.posOrientation); if (!exact) od = std::min(od, std::fabs(2 * PI_ - od));
  return a.posLevel == b.posLevel && a.provider == b.provider && eq(a.posLatitude, b.posLatitude, 3e-7) && eq(a.posLongitude, b.posLongitude, 3e-7) && eq(a.posAltitude, b.posAltitude, 1e-6) && eq(a.posR, b.posR, 1e-6) && (exact ? od == 0 : od < 1e-6);
}
struct Case { World w; NavigationSettings s; std::vector<Measurement> m; std::shared_ptr<LevelCollector> lc; };
static Case gen(G& g, StreamOpt o = StreamOpt()) {
  Case c; c.w = genWorld(g); c.s = genSettings(g, c.w); c.m = genStream(g, c.w, o); c.lc = collect(c.w);
  if (c.m.empty()) g.discard();
  note(g, c.w); NOTE(g, show(c.s));
  return c;
}
static std::vector<NavigationOutput> runFill(const Case& c, unsigned v) { Fill f(v); return run(c.lc, c.s, c.m); }
static void compare(G& g, const std::vector<Measurement>& m, const std::vector<NavigationOutput>& a, const std::vector<NavigationOutput>& b, const char* key, bool exact, const char* what) {
  int ok = 0; for (auto& x : a) ok += x.status == NavigationStatus::OK;
  g.nontrivial(ok >= 2);
  REQUIRE(key, a.size() == b.size(), what << ": " << b.size() << " outputs instead of " << a.size());
  for (size_t i = 0; i < a.size(); i++) REQUIRE(key, same(a[i], b[i], exact), what << ": message " << i << " (" << show(m[i]) << ") gives " << show(b[i]) << " instead of " << show(a[i]));
}
static void repeat(G& g) {
  Case c = gen(g);
  auto a = runFill(c, 0), e = runFill(c, 0);
  note(g, c.m, a);
  compare(g, c.m, a, e, "repeat", true, "second run");
  for (unsigned v : {0xffffffffu, 0x41414141u, 1u, 4u, 2u}) { auto b = runFill(c, v); compare(g, c.m, a, b, "memory", true, ("memory filled with " + std::to_string(v)).c_str()); }
}
static void batches(G& g) {
  Case c = gen(g);
  auto a = run(c.lc, c.s, c.m);
  note(g, c.m, a);
  auto cl = createNavigationClient(c.lc, c.s);
  std::vector<NavigationOutput> b; size_t i = 0; int mode = (int)g.draw(2); std::ostringstream o;
  while (i < c.m.size()) {
    size_t k = mode == 0 ? 1 : mode == 1 ? 1 + g.draw(5) : 1 + g.draw(40);
    k = std::min(k, c.m.size() - i);
    if (g.chance(1, 10)) REQUIRE("empty batch", cl->navigate({}).empty(), "an empty batch gives outputs");
    auto r = cl->navigate(std::vector<Measurement>(c.m.begin() + i, c.m.begin() + i + k));
    REQUIRE("batch", r.size() == k, k << " messages gave " << r.size() << " outputs");
    b.insert(b.end(), r.begin(), r.end());
    i += k; o << k << " ";
  }
  NOTE(g, "batches " << o.str());
  compare(g, c.m, a, b, "batch", true, "split into batches");
}
static void others(G& g) {
  Case c = gen(g);
  auto a = run(c.lc, c.s, c.m);
  note(g, c.m, a);
  NavigationSettings s2 = g.boolean() ? c.s : genSettings(g, c.w);
  auto m2 = genStream(g, c.w);
  auto cl = createNavigationClient(c.lc, c.s), other = createNavigationClient(c.lc, s2);
  std::vector<NavigationOutput> b; size_t j = 0;
  for (auto& m : c.m) {
    int k = (int)g.draw(2);
    while (k-- > 0 && j < m2.size()) other->navigate({m2[j++]});
    if (g.chance(1, 40)) other = createNavigationClient(c.lc, s2), j = 0;
    auto r = cl->navigate({m}); b.insert(b.end(), r.begin(), r.end());
  }
  compare(g, c.m, a, b, "isolation", true, "with another client on the same map");
}
static void shift(G& g) {
  Case c = gen(g);
  auto a = run(c.lc, c.s, c.m);
  note(g, c.m, a);
  auto m = c.m; long long d = g.pick({1000LL, 86400000LL, 1234567LL, 1600000000000LL});
  for (auto& x : m) x.ts += d;
  NOTE(g, "shifted by " << d);
  auto b = run(c.lc, c.s, m);
  compare(g, c.m, a, b, "time shift", c.s.commonSettings.useSmoothing ? false : false, "all timestamps shifted");
}
static void disorder(G& g) {
  Case c = gen(g);
  auto a = run(c.lc, c.s, c.m);
  note(g, c.m, a);
  // messages older than the one before them, inside one batch
  std::vector<Measurement> m; int ins = 0;
  for (size_t i = 0; i < c.m.size(); i++) {
    m.push_back(c.m[i]);
    if (g.chance(1, 6)) { Measurement x = g.pick(c.m); if (g.boolean()) x = radio(0, g.pick(g.pick(c.w.L).txs).id, -40); x.ts = c.m[i].ts - 1 - (long long)g.draw(100000); m.push_back(x); ins++; NOTE(g, "inserted after message " << i << ": " << show(x)); }
  }
  auto b = run(c.lc, c.s, m);
  compare(g, c.m, a, b, "out of order", true, "with out-of-order messages");
  g.label("inserted", ins > 0);
}
// messages without information: at the time of the message before them they change nothing and repeat its output
static void noise(G& g) {
  StreamOpt o; o.unknown = false;
  Case c = gen(g, o);
  c.s.commonSettings.useUnknownTransmitters = false;
  if (c.s.commonSettings.sigAveragingTime <= 0) c.s.commonSettings.sigAveragingTime = 1;   // without a window every message closes one, which is an effect
  auto a = run(c.lc, c.s, c.m);
  note(g, c.m, a);
  std::vector<Measurement> m; std::vector<bool> extra;
  for (auto& x : c.m) {
    m.push_back(x); extra.push_back(false);
    int k = g.chance(1, 4) ? 1 + g.small(3) : 0;
    while (k-- > 0) { m.push_back(g.boolean() ? radio(x.ts, "stranger", -40) : radio(x.ts, "", -60, RT::WIFI)); extra.push_back(true); }
  }
  auto all = run(c.lc, c.s, m);
  REQUIRE("no information", all.size() == m.size(), m.size() << " messages gave " << all.size() << " outputs");
  std::vector<NavigationOutput> b;
  for (size_t i = 0; i < m.size(); i++) {
    NOTE(g, show(m[i]) << " -> " << show(all[i]));
    if (!extra[i]) b.push_back(all[i]);
  }
  compare(g, c.m, a, b, "no information", false, "with messages of unknown transmitters");
}
// at any time, a message of an unknown transmitter and another message without content have the same effect
static void contentless(G& g) {
  StreamOpt o; o.unknown = false;
  Case c = gen(g, o);
  c.s.commonSettings.useUnknownTransmitters = false;
  std::vector<Measurement> m1, m2; int n = 0;
  for (auto& x : c.m) {
    m1.push_back(x); m2.push_back(x);
    if (g.chance(1, 4)) { long long t = x.ts + 0; n++;
      m1.push_back(radio(t, "stranger", -40)); m2.push_back(g.boolean() ? radio(t, "nobody", -90, RT::BLUETOOTH) : radio(t, c.w.L[0].txs[0].id, g.pick({0.0, 20.0, c.s.commonSettings.sigCutOffRss, -500.0}))); }
  }
  auto a = run(c.lc, c.s, m1), b = run(c.lc, c.s, m2);
  note(g, m2, b);
  compare(g, m2, a, b, "no information", false, "another message without content");
}
static std::vector<pbt::Sub> subs() { return {{"repeat", repeat, 3000, 60000}, {"batches", batches, 4000, 80000}, {"others", others, 3000, 60000}, {"shift", shift, 4000, 80000}, {"disorder", disorder, 4000, 80000}, {"noise", noise, 4000, 80000}, {"contentless", contentless, 3000, 60000}}; }
PBT_MAIN(subs)
