// C26: particle likelihoods of the fingerprint map against the independent model of the fingerprint position.
#include "knn_world.h"
#include "src/likelihood/likelihood_radiomap.h"
using namespace mg;
static void weightsOf(G& g) {
  World w = world(g);
  NavigationSettings s;
  auto& c = s.commonSettings;
  c.useAlgorithm = CommonSettings::UseAlgorithm::KNN;
  c.useTriangles = g.boolean(); c.useDiffMode = !w.positive && g.boolean(); c.kNeighbors = g.sized(10, 200, 20);
  c.minNumOfMeasurementsForPositionCalculation = (unsigned)g.sized(5, 40, 20); c.minMsrNumForMutation = (unsigned)g.draw(6);
  std::shared_ptr<Likelihood> lh = std::make_shared<LikelihoodRadiomap>(w.lc, s);
  auto tris = triangulate(w.lc);
  NOTE(g, (c.useTriangles ? "triangles" : "k nearest") << " diff=" << c.useDiffMode << " k=" << c.kNeighbors << " min=" << c.minNumOfMeasurementsForPositionCalculation << " min for mutation=" << c.minMsrNumForMutation);
  int calls = 1 + g.small(5), solved = 0, unsolved = 0;
  bool fresh = true;   // no position computed so far
  REQUIRE("model", lh->getLikelihoodModel() == MeasurementLikelihoodModel::RADIOMAP, "likelihood model");
  for (int q = 0; q < calls; q++) {
    const LevelSpec& l = g.pick(w.L);
    const Level& level = w.lc->level(LevelId(l.id));
    auto ordered = reading(g, w, l);
    RadioMeasurementsData msr;
    for (int i : g.permutation((int)ordered.size())) msr.push_back(ordered[i]);
    Expected E = expectPosition(l, level, tris, msr, c);
    std::vector<XYParticle> ps;
    int np = g.chance(1, 12) ? 0 : 1 + g.sized(12, 600);
    for (int i = 0; i < np; i++) {
      XYParticle p(g.uniform(-5, l.W + 5), g.uniform(-5, l.H + 5), g.uniform(-4, 4));
      if (i && g.chance(1, 4)) { p.x = ps[i - 1].x; p.y = ps[i - 1].y; }
      else if (!E.accept.empty() && g.chance(1, 6)) { p.x = E.accept[0].first; p.y = E.accept[0].second; }
      else if (g.chance(1, 20)) { p.x = g.pick({1e7, -1e5}); }
      ps.push_back(p);
    }
    NOTE(g, "level " << l.id << " " << l.rps.size() << " rps, readings " << showMsr(msr) << " known " << E.known << ", " << np << " particles");
    bool upd = lh->hasSufficientMeasurementsForUpdate(level, msr), mut = lh->hasSufficientMeasurementsForMutation(level, msr);
    REQUIRE("sufficient", upd == E.enough, "update " << upd << " with " << E.known << " known readings");
    REQUIRE("sufficient", mut == (E.known >= c.minMsrNumForMutation), "mutation " << mut << " with " << E.known << " known readings");
    auto same = lh->getOnlyCorrectlyIntersectedMeasurements(level, msr);
    bool eq = same.size() == msr.size();
    for (size_t i = 0; eq && i < msr.size(); i++) eq = same[i].id.value == msr[i].id.value && same[i].rssi == msr[i].rssi && same[i].distance == msr[i].distance;
    REQUIRE("measurements kept", eq, "radio map likelihood dropped or changed readings");
    if (fresh) REQUIRE("no centre yet", lh->getWeight(level, msr, 1, 1) == 0, "a weight before any position was computed");
    // getWeight uses what doPreliminaryCalculations stored; calculateWeights must not depend on it
    auto check = [&](const std::vector<double>& W, const char* when) {
      REQUIRE("one weight each", W.size() == ps.size(), W.size() << " weights for " << ps.size() << " particles " << when);
      if (ps.empty()) return;
      if (!E.enough) { for (double x : W) REQUIRE("uniform", std::fabs(x - 1.0 / ps.size()) < 1e-12, "weight " << x << " of " << ps.size() << " particles without enough readings " << when); return; }
      if (!E.solution) { for (double x : W) REQUIRE("no solution", x == 0, "weight " << x << " although no reference point is similar " << when); return; }
      double sum = 0;
      for (double x : W) { REQUIRE("finite", std::isfinite(x) && x > 0, "weight " << x << " " << when); sum += x; }
      REQUIRE("normalised", std::fabs(sum - 1) < 1e-9, "weights sum to " << pbt::str(sum) << " " << when);
      bool any = false; std::string bad;
      for (auto& a : E.accept) {
        std::vector<double> X; double n = 0;
        for (auto& p : ps) { X.push_back(1 / (0.1 + std::hypot(p.x - a.first, p.y - a.second))); n += X.back(); }
        bool ok = true;
        for (size_t i = 0; i < ps.size(); i++) if (std::fabs(X[i] / n - W[i]) > 1e-6 * (X[i] / n) + 1e-12) { ok = false; if (bad.empty()) bad = "particle (" + pbt::str(ps[i].x) + "," + pbt::str(ps[i].y) + ") weighs " + pbt::str(W[i]) + " instead of " + pbt::str(X[i] / n); }
        any = any || ok;
      }
      REQUIRE("weights", any, bad << " " << when);
    };
    bool before = g.boolean();
    if (before) check(lh->calculateWeights(level, msr, ps), "before sampling");
    bool sampling = g.boolean();
    if (sampling) {
      auto C = lh->calculateSamplingCenters(level, msr);
      if (E.solution) {
        REQUIRE("sampling centre", C.size() == 1, C.size() << " sampling centres");
        bool ok = false;
        for (auto& a : E.accept) ok = ok || std::hypot(a.first - C[0].x, a.second - C[0].y) < 1e-6;
        REQUIRE("sampling centre", ok, "centre (" << C[0].x << "," << C[0].y << ") instead of (" << E.accept[0].first << "," << E.accept[0].second << ")");
      } else if (E.enough || fresh) REQUIRE("sampling centre", C.empty(), "centre without a solution");
    } else lh->doPreliminaryCalculations(level, msr);
    if (E.enough) fresh = false;
    if (E.enough) {
      for (auto& p : ps) {
        double x = lh->getWeight(level, msr, p.x, p.y);
        bool ok = !E.solution && x == 0;
        for (auto& a : E.accept) { double e = 1 / (0.1 + std::hypot(p.x - a.first, p.y - a.second)); ok = ok || std::fabs(e - x) < 1e-5 * e; }
        REQUIRE("weight of a point", ok, "weight of (" << p.x << "," << p.y << ") is " << x << (E.solution ? "" : " without a solution"));
      }
    }
    if (!before || g.boolean()) check(lh->calculateWeights(level, msr, ps), "after sampling");
    if (E.solution && np >= 2) solved++; else unsolved++;
    g.label(E.solution ? "solution" : E.enough ? "no similar reference point" : "too few readings");
  }
  g.nontrivial(solved >= 1);
}
// a particle lies in the intersection area exactly when it is within the measured range of every transmitter (horizontally)
static void area(G& g) {
  World w = world(g);
  const LevelSpec& l = g.pick(w.L);
  const Level& level = w.lc->level(LevelId(l.id));
  double x = g.uniform(-5, l.W + 5), y = g.uniform(-5, l.H + 5);
  RadioMeasurementsData m;
  bool inside = true; int out = 0;
  for (auto& t : l.txs) {
    if (g.chance(1, 4)) continue;
    auto tx = level.transmitter(TransmitterId(t.id));
    double d = std::hypot(tx.point.x - x, tx.point.y - y);
    RadioMeasurementData r; r.id = TransmitterId(t.id); r.type = RadioMeasurementData::Type::BEACON; r.rssi = -60;
    int k = (int)g.draw(9);
    r.distance = k == 0 ? d - 1e-5 : k == 1 ? d * g.uniform(0, 0.99) - 1e-5 : k == 2 ? d + 1e-5 : k == 3 ? d : d + g.uniform(0, 20);
    if (r.distance < d - 5e-6) { inside = false; out++; }
    m.push_back(r);
  }
  bool is = isParticleInIntersectionArea(level, m, x, y);
  NOTE(g, m.size() << " ranges, " << out << " too short for (" << x << "," << y << "): " << is);
  REQUIRE("intersection area", is == inside, "point (" << x << "," << y << ") " << (is ? "in" : "out of") << " the area although " << out << " of " << m.size() << " ranges are too short");
  g.nontrivial(m.size() >= 2);
  g.label(inside ? "inside" : out == 1 ? "outside one" : "outside several");
}
static std::vector<pbt::Sub> subs() { return {{"weights", weightsOf, 40000, 1000000}, {"area", area, 40000, 600000}}; }
PBT_MAIN(subs)
