// C09: barometer gate against a model that recomputes both pressure windows from the whole history of samples.
#include "mapgen.h"
#include "src/level_estimator/barometer.h"
using namespace mg;
typedef SensorMeasurementData::Type ST;
static double alt(double p2, double p1) { return -8.31 * 288.0 / (9.8 * 0.0289) * std::log(p2 / p1); }
static void gate(G& g) {
  Barometer b;
  std::vector<double> all;            // pressure samples in order
  std::string level;                  // model: last accepted level
  double base = g.pick({1013.25, 990.0, 870.0}), h = 0, noise = g.pick({0.0, 0.0, 0.02, 0.15});
  bool bad = g.chance(1, 20);
  int lvl = (int)g.draw(2), decisions = 0, refused = 0, accepted = 0, others = 0, up = 0, down = 0;
  auto name = [](int l) { return std::string(1, 'A' + (char)l); };
  bool first = true;
  bool late = g.chance(1, 4);         // no radio level for a while
  int lateUntil = late ? (int)g.draw(400) : 0;
  int phases = 1 + (int)g.draw(7), i = 0;
  for (int ph = 0; ph < phases; ph++) {
    int len = (int)g.draw(g.boolean() ? 60 : 260);
    double target = h + g.pick({0.0, 1.0, -1.0, 1.8, -1.8, 2.3, -2.3, 4.0, -4.0, 12.0, -12.0, 0.0});
    double pace = g.pick({1000.0, 0.5, 0.05});
    if (g.chance(2, 3)) lvl = (int)g.draw(2);
    NOTE(g, "phase of " << len << " messages, target height " << target << " m, radio level " << name(lvl));
    for (int k = 0; k < len; k++, i++) {
      h += std::max(-pace, std::min(pace, target - h));
      SensorMeasurement m; m.ts = 10 * i;
      int kind = g.chance(1, 10) ? (int)g.draw(4) : 9;
      m.data.type = ST::BAROMETER;
      double p = base * std::exp(-h * 9.8 * 0.0289 / (8.31 * 288.0)) + noise * g.normal();
      if (bad && g.chance(1, 3)) p = g.pick({0.0, -1000.0, 1e-320});
      if (kind < 4) { m.data.type = ST(kind); p = g.pick({0.0, 500.0, 2000.0, p}); if (m.data.type == ST::BAROMETER) m.data.type = ST::GYROSCOPE; }
      m.data.values = Vector3d(p, 1, 2);
      std::string radio = name(lvl);
      if (g.chance(1, 30)) radio = name((int)g.draw(2));
      if (i < lateUntil) radio = "";
      std::string got = b.checkLevelChange(LevelId(radio), m).value;
      if (first) { first = false; continue; }       // the first call only arms the barometer; its answer is checked below through 'radio'
      if (m.data.type == ST::BAROMETER) all.push_back(p); else others++;
      // windows: the last 101 samples, and the (at most 101) before them
      size_t n = all.size();
      bool full = n >= 201;
      std::string want = level;
      double dh = 0;
      if (!full || level.empty()) want = radio;   // nothing accepted so far: there is no change to block
      else if (radio != level) {
        size_t ne = 101, st = std::min<size_t>(n - 101, 101);
        double m2 = 0, m1 = 0;
        for (size_t k2 = n - ne; k2 < n; k2++) m2 += all[k2];
        for (size_t k1 = n - ne - st; k1 < n - ne; k1++) m1 += all[k1];
        m2 /= ne; m1 /= st;
        decisions++;
        if (std::fabs(m1) < 1e-3 || std::fabs(m2) < 1e-3) g.discard();
        if (m1 > 0 && m2 > 0) {
          dh = alt(m2, m1);
          if (std::fabs(std::fabs(dh) - 2) < 1e-6) g.discard();
          if (std::fabs(dh) > 2) { want = radio; accepted++; (dh > 0 ? up : down)++; } else refused++;
        }
      }
      REQUIRE("level", got == want, "message " << i << " (" << n << " pressure samples, height difference " << dh << " m): level '" << got << "' instead of '" << want << "', radio level '" << radio << "', last accepted '" << level << "'");
      level = want;
    }
  }
  NOTE(g, "samples " << all.size() << ", decisions " << decisions << ", refused " << refused << ", accepted " << accepted);
  g.nontrivial(decisions >= 1);
  g.label("refused", refused > 0); g.label("accepted upwards", up > 0); g.label("accepted downwards", down > 0); g.label("other sensors", others > 0);
  g.label("late first level", lateUntil > 201);
  g.label("nonpositive pressure", bad);
}
static std::vector<pbt::Sub> subs() { return {{"gate", gate, 24000, 600000}}; }
PBT_MAIN(subs)
