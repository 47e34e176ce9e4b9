// C30: the debug states of a client belong to its outputs and repeat what they are made of.
#include "e2e.h"
#include "src/sensor_fusion/pedometer.h"
#include "src/measurements/measurement_preprocessor.h"
using namespace e2e;
#include "fill.h"
struct Run { std::vector<NavigationOutput> out; std::vector<NavigationState> st; std::vector<size_t> batchEnd; };
static std::string show(const NavigationState& s) { std::ostringstream o; o << std::setprecision(12) << "indoor (" << s.getIndoorPosition().x << "," << s.getIndoorPosition().y << ") outdoor (" << s.getOutdoorPosition().x << "," << s.getOutdoorPosition().y << ") steps " << s.getStepCounter() << " length " << s.getStepLen() << " heading " << s.getHeading(); return o.str(); }
static bool same(const NavigationState& a, const NavigationState& b) {
  return a.getIndoorPosition().x == b.getIndoorPosition().x && a.getIndoorPosition().y == b.getIndoorPosition().y && a.getOutdoorPosition().x == b.getOutdoorPosition().x && a.getOutdoorPosition().y == b.getOutdoorPosition().y && a.getStepCounter() == b.getStepCounter() && a.getStepLen() == b.getStepLen() && a.getHeading() == b.getHeading() && a.getParticles().size() == b.getParticles().size() && a.getParticleWeights() == b.getParticleWeights() && a.getLikelihoodMapPoints().size() == b.getLikelihoodMapPoints().size() && a.getLikelihoodMapWeights() == b.getLikelihoodMapWeights() && a.getLevelRadioMeasurements().size() == b.getLevelRadioMeasurements().size();
}
// the stream in the given batches; every batch's states must be one per output
static Run go(const std::shared_ptr<LevelCollector>& lc, const NavigationSettings& s, const std::vector<Measurement>& m, const std::vector<size_t>& batches) {
  Run r; auto c = createNavigationClient(lc, s); size_t i = 0;
  REQUIRE("before", c->getStates().empty(), "a new client has " << c->getStates().size() << " states");
  for (size_t k : batches) {
    auto o = c->navigate(std::vector<Measurement>(m.begin() + i, m.begin() + i + k)); i += k;
    auto st = c->getStates();
    REQUIRE("one each", st.size() == o.size(), "a batch of " << k << " messages gave " << o.size() << " outputs and " << st.size() << " states");
    r.out.insert(r.out.end(), o.begin(), o.end()); r.st.insert(r.st.end(), st.begin(), st.end()); r.batchEnd.push_back(r.out.size());
  }
  return r;
}
static std::vector<size_t> cut(G& g, size_t n) { std::vector<size_t> b; int mode = (int)g.draw(3); while (n) { size_t k = std::min<size_t>(n, mode == 0 ? n : mode == 1 ? 1 : mode == 2 ? 1 + g.draw(5) : 1 + g.draw(40)); b.push_back(k); n -= k; } return b; }
static void note(G& g, const std::vector<Measurement>& m, const Run& r) { if (g.wantNote) for (size_t i = 0; i < m.size() && i < r.out.size(); i++) NOTE(g, show(m[i]) << " -> " << show(r.out[i]) << " [" << show(r.st[i]) << "]"); }
static void plain(G& g, World& w, NavigationSettings& s, std::vector<Measurement>& m, StreamOpt o, bool sameFrame) {
  WorldOpt wo; wo.sameFrame = sameFrame; w = genWorld(g, wo); s = genSettings(g, w); m = genStream(g, w, o);
  if (m.empty()) g.discard();
  e2e::note(g, w); NOTE(g, show(s));
}
// repetition: the same states in every run and with every batching, whatever the memory contained
static void repeat(G& g) {
  World w; NavigationSettings s; std::vector<Measurement> m; plain(g, w, s, m, StreamOpt(), false);
  auto lc = collect(w); auto b = cut(g, m.size()), b2 = cut(g, m.size());
  Run a = [&] { Fill f(0); return go(lc, s, m, b); }();
  note(g, m, a);
  for (unsigned v : {0xffffffffu, 0x41414141u, 1u}) {
    Run x = [&] { Fill f(v); return go(lc, s, m, b2); }();
    REQUIRE("repeat", x.st.size() == a.st.size(), x.st.size() << " states instead of " << a.st.size());
    for (size_t i = 0; i < a.st.size(); i++) REQUIRE("repeat", same(a.st[i], x.st[i]), "message " << i << ", memory filled with " << v << ": state " << show(x.st[i]) << " instead of " << show(a.st[i]));
  }
  for (auto& x : a.st) REQUIRE("no particles", x.getParticles().empty() && x.getParticleWeights().empty() && x.getLikelihoodMapPoints().empty() && x.getLikelihoodMapWeights().empty(), "a particle state without particle filter");
  g.nontrivial(a.st.size() >= 3);
}
// steps: those a pedometer counts for the accelerometer readings, in the message that completes them, whatever else is received
static void steps(G& g) {
  World w; NavigationSettings s; std::vector<Measurement> m; StreamOpt o; o.steps = true; o.maxTicks = 40; plain(g, w, s, m, o, false);
  double mul = g.pick({1.0, 0.8, 1.5, 2.5, 0.0, 10.0}); s.commonSettings.stepMultiplier = mul; NOTE(g, "step multiplier " << mul);
  auto lc = collect(w); Run a = go(lc, s, m, cut(g, m.size()));
  note(g, m, a);
  REQUIRE("in order", a.st.size() == m.size(), m.size() << " messages gave " << a.st.size() << " states");
  Pedometer ped; int total = 0, stepped = 0; long long last = 0; bool walking = false;
  for (size_t i = 0; i < m.size(); i++) {
    SensorMeasurement x; x.ts = m[i].ts; if (auto d = boost::get<SensorMeasurementData>(&m[i].data)) x.data = *d;
    ped.update(x); auto st = ped.calculateSteps(); double len = 0; for (auto& q : st) len += q.len; total += (int)st.size(); len *= mul; stepped += !st.empty();
    const NavigationState& n = a.st[i];
    REQUIRE("step length", std::fabs(n.getStepLen() - len) <= 1e-12 * (1 + std::fabs(len)), "message " << i << ": length " << n.getStepLen() << " instead of " << len);
    if (!st.empty()) REQUIRE("step counter", n.getStepCounter() == total, "message " << i << ": " << n.getStepCounter() << " steps instead of " << total);
    REQUIRE("steps only move on", n.getStepCounter() <= total && n.getStepCounter() >= 0, "message " << i << ": " << n.getStepCounter() << " steps of " << total);
    REQUIRE("no heading", n.getHeading() == 0, "heading " << n.getHeading() << " of a state without particle filter");
  }
  // the same accelerometer readings alone
  std::vector<Measurement> acc; std::vector<size_t> at;
  for (size_t i = 0; i < m.size(); i++) { auto d = boost::get<SensorMeasurementData>(&m[i].data); if (d && d->type == ST::ACCELEROMETER) { acc.push_back(m[i]); at.push_back(i); } }
  if (!acc.empty()) { Run b = go(lc, s, acc, cut(g, acc.size())); REQUIRE("alone", b.st.size() == acc.size(), acc.size() << " readings gave " << b.st.size() << " states"); for (size_t k = 0; k < acc.size(); k++) REQUIRE("alone", b.st[k].getStepLen() == a.st[at[k]].getStepLen() && b.st[k].getStepCounter() == a.st[at[k]].getStepCounter(), "accelerometer reading " << k << " alone: " << show(b.st[k]) << " instead of " << show(a.st[at[k]])); }
  g.nontrivial(stepped >= 2);
}
// positions: what is reported comes from the positions in the state
static void positions(G& g) {
  World w; NavigationSettings s; std::vector<Measurement> m; StreamOpt o; o.sensors = g.chance(1, 3); plain(g, w, s, m, o, true);
  auto& c = s.commonSettings; c.useSmoothing = c.useTimeSmoothing = c.useStops = c.useGraphProjection = false; NOTE(g, "no smoothing, stops or graph");
  auto lc = collect(w); Run a = go(lc, s, m, cut(g, m.size()));
  note(g, m, a);
  int nIn = 0, nOut = 0, nFused = 0; std::vector<std::pair<double, double>> fixes;
  REQUIRE("in order", a.st.size() == m.size(), m.size() << " messages gave " << a.st.size() << " states");
  for (size_t i = 0; i < m.size(); i++) {
    const NavigationState& n = a.st[i]; const NavigationOutput& x = a.out[i];
    if (auto d = boost::get<SensorMeasurementData>(&m[i].data)) if (d->type == ST::LOCATION) fixes.push_back({d->values.x, d->values.y});
    XYPoint in = n.getIndoorPosition(), out = n.getOutdoorPosition();
    if (x.status != NavigationStatus::OK || !x.posLevel.isValid()) continue;
    const LevelSpec* l = find(w, x.posLevel.value);
    REQUIRE("known level", l != nullptr, "message " << i << ": level '" << x.posLevel.value << "'");
    // local coordinates of the report: all levels start at the same place
    const Level& lev = lc->level(x.posLevel); double px, py; toLocal(l->lat0, l->lon0, x.posLatitude, x.posLongitude, px, py);
    const auto& box = lev.geometry().boundingBox();
    auto fit = [&](const XYPoint& p) { return XYPoint(std::round(std::min(std::max(p.x, box.min_corner().x()), box.max_corner().x()) * 100) / 100, std::round(std::min(std::max(p.y, box.min_corner().y()), box.max_corner().y()) * 100) / 100); };
    auto is = [&](const XYPoint& p) { XYPoint f = fit(p); return std::hypot(f.x - px, f.y - py) < 0.016 || std::hypot(p.x - px, p.y - py) < 0.002; };
    if (x.provider == Provider::INDOOR) { nIn++; REQUIRE("indoor position", is(in), "message " << i << ": reported (" << px << "," << py << ") indoors, state has " << show(n)); }
    else if (x.provider == Provider::GNSS) {
      nOut++; bool fix = false;   // without a level the fix itself is reported
      for (auto& f : fixes) { double fx, fy; toLocal(l->lat0, l->lon0, f.first, f.second, fx, fy); fix |= std::hypot(fx - px, fy - py) < 0.002; }
      REQUIRE("satellite position", is(out) || fix, "message " << i << ": reported (" << px << "," << py << ") from satellites, state has " << show(n));
    } else if (x.provider == Provider::FUSED) {
      nFused++; double t = std::hypot(out.x - in.x, out.y - in.y), u = 0;
      if (t > 1e-9) u = std::min(1.0, std::max(0.0, ((px - in.x) * (out.x - in.x) + (py - in.y) * (out.y - in.y)) / (t * t)));
      XYPoint near(in.x + u * (out.x - in.x), in.y + u * (out.y - in.y));
      bool inside = px > box.min_corner().x() + 0.02 && px < box.max_corner().x() - 0.02 && py > box.min_corner().y() + 0.02 && py < box.max_corner().y() - 0.02;
      if (inside) REQUIRE("fused position", std::hypot(near.x - px, near.y - py) < 0.016, "message " << i << ": reported (" << px << "," << py << "), not between the positions of the state " << show(n));
    }
  }
  g.nontrivial(nIn >= 3 || nOut >= 3); g.label("indoor", nIn > 0); g.label("satellites", nOut > 0); g.label("fused", nFused > 0);
}
static std::vector<pbt::Sub> subs() { return {{"repeat", repeat, 4000, 60000}, {"steps", steps, 4000, 80000}, {"positions", positions, 9000, 120000}}; }
PBT_MAIN(subs)
