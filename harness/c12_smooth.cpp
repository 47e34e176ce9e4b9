// C12: alpha-beta, least-squares and time smoothing against models, plus the guarantees that need no model.
#include "post_model.h"
#include "src/position_postprocessor/position_smoother_ab.h"
#include "src/position_postprocessor/position_smoother_lstsq.h"
#include "src/position_postprocessor/navigation_time_smoother.h"
#include "src/position_postprocessor/position_postprocessor.h"
using namespace pm;
static std::string show(const Position& p) { std::ostringstream o; o << std::setprecision(12) << "(" << p.x << "," << p.y << ") dev " << p.deviationM << " level '" << p.levelId.value << "' ts " << p.ts << (p.isEmpty ? " empty" : ""); return o.str(); }
static void sameRest(const Position& got, const Position& want, const char* what) {
  REQUIRE("position attributes", got.levelId == want.levelId && got.isEmpty == want.isEmpty && got.provider == want.provider && got.ts == want.ts && got.heading == want.heading, what << ": " << show(got) << " instead of " << show(want));
}
static NavigationSettings settings(G& g) {
  NavigationSettings s; auto& c = s.commonSettings;
  c.smoothing = g.pick({0.5, 0.0, 1.0, 0.2, 0.8, -1.0, 3.0});
  c.useBarriers = g.chance(1, 2); c.useSpeedConstraint = g.chance(2, 3); c.useAccuracyForSmoothing = g.chance(1, 3);
  c.sigAveragingTime = g.pick({1.0005, 2.0005, 5.0005, 0.0005, 0.4995}); c.sigWindowShift = g.pick({0.0, 0.5, 1.0});
  return s;
}
static long long gap(G& g, bool wide) {
  if (wide && g.chance(1, 60)) return farGap(g);
  switch (g.draw(wide ? 5 : 3)) { case 0: return 500; case 1: return 1000; case 2: return 100 + (long long)g.draw(900); case 3: return 250; case 4: return 10000 + (long long)g.range(-1, 1); default: return 1 + (long long)g.draw(15000); }
}
static void ab(G& g) {
  NavigationSettings s = settings(g);
  Area area = genArea(g); Level lev = makeLevel("A", area);
  PositionSmootherAB im(s); Ab mo(s);
  auto& c = s.commonSettings;
  NOTE(g, "smoothing " << c.smoothing << ", barriers " << c.useBarriers << ", speed limit " << c.useSpeedConstraint << ", accuracy " << c.useAccuracyForSmoothing << ", area " << area.x1 << " x " << area.y1);
  long long ts = g.pick({1LL, 5000LL, 20000LL, 1700000000000LL});
  Walk w{g.real(0, area.x1), g.real(0, area.y1)};
  int n = 3 + g.sized(60, 500), smoothed = 0, restarts = 0, why[6] = {0};
  for (int i = 0; i < n; i++) {
    if (i) { long long dt = gap(g, true); ts += g.chance(1, 20) ? 0 : dt; w.step(g, dt / 1000.0, area.x1, area.y1); }
    Position p(w.x, w.y, LevelId("A"), c.useAccuracyForSmoothing ? g.real(0, 20) : 3.0, ts, false, g.boolean() ? Provider::INDOOR : Provider::FUSED, 0.25 * i);
    if (g.chance(1, 30)) { im.reset(p); mo.reset(p); NOTE(g, "reset " << show(p)); ts += 1 + (long long)g.draw(1000); p.ts = ts; }
    Position got = im.smoothPosition(p, lev);
    try { mo.smooth(p, area); } catch (Ambiguous&) { g.label("stopped at a decision boundary"); break; }
    NOTE(g, show(p) << " -> " << show(got) << "  model (" << (double)mo.x << "," << (double)mo.y << ") why " << mo.why);
    why[mo.why]++;
    sameRest(got, mo.cur, "alpha-beta output");
    if (mo.why != Ab::SMOOTHED && mo.why != Ab::STALE) { REQUIRE("restart", got.x == p.x && got.y == p.y && got.deviationM == p.deviationM, "restart expected at " << show(p) << " but got " << show(got)); restarts += i > 0; }
    LD tol = 1e-9 + mo.ex;
    REQUIRE("recurrence", fabsl(got.x - mo.x) <= tol && fabsl(got.y - mo.y) <= tol, "output " << show(got) << " instead of (" << (double)mo.x << "," << (double)mo.y << ")");
    REQUIRE("radius", fabsl(got.deviationM - mo.dev) <= 1e-6 * (1 + mo.dev), "radius " << got.deviationM << " instead of " << (double)mo.dev);
    if (c.useBarriers && mo.why == Ab::SMOOTHED) REQUIRE("walkable", area.covers(got.x, got.y, 0), "smoothed position " << show(got) << " is outside the walkable area");
    smoothed += mo.why == Ab::SMOOTHED;
  }
  g.nontrivial(smoothed >= 2 && restarts >= 1);
  g.label("restart: gap", why[Ab::LONG] > 0); g.label("restart: speed", why[Ab::FAST] > 0); g.label("restart: area", why[Ab::OUTSIDE] > 0); g.label("stale", why[Ab::STALE] > 0);
}
// no model: constant history reproduced, standing target after any history approached, time origin irrelevant, bounded overshoot
static void standing(G& g) {
  NavigationSettings s = settings(g); auto& c = s.commonSettings;
  c.useBarriers = false;
  bool useAb = g.boolean();
  if (!useAb && c.smoothing <= 0) c.smoothing = 0.5;
  Area area; area.polys.push_back({rect(-500, -500, 500, 500), {}}); area.box();
  Level lev = makeLevel("A", area);
  std::unique_ptr<PositionSmoother> a, b;
  if (useAb) { a.reset(new PositionSmootherAB(s)); b.reset(new PositionSmootherAB(s)); } else { a.reset(new PositionSmootherLstsq(s)); b.reset(new PositionSmootherLstsq(s)); }
  long long ts = 1000 + (long long)g.draw(100000), off = g.pick({0LL, 1000000LL, 1700000000000LL});
  Walk w{g.real(0, 50), g.real(0, 50)};
  int pre = g.small(20), n = 40; bool constant = pre == 0;
  long long step = g.pick({100LL, 500LL, 1000LL}); double dev = g.real(0.5, 10), first = 0, dist = 0, prevx = 0, prevy = 0;
  NOTE(g, (useAb ? "alpha-beta" : "least squares") << ", smoothing " << c.smoothing << ", speed limit " << c.useSpeedConstraint << ", accuracy " << c.useAccuracyForSmoothing << ", history " << pre << ", step " << step << " ms, dev " << dev);
  for (int i = 0; i < pre + n; i++) {
    if (i) ts += step;
    if (i < pre) w.step(g, step / 1000.0, 50, 50);
    Position p(w.x, w.y, LevelId("A"), dev, ts, false, Provider::INDOOR, 0);
    Position q = p; q.ts += off;
    Position r = a->smoothPosition(p, lev), t = b->smoothPosition(q, lev);
    NOTE(g, show(p) << " -> " << show(r));
    REQUIRE("finite", std::isfinite(r.x) && std::isfinite(r.y) && std::isfinite(r.deviationM) && r.deviationM >= 0, "output " << show(r));
    REQUIRE("time origin", std::fabs(r.x - t.x) < 1e-6 && std::fabs(r.y - t.y) < 1e-6 && std::fabs(r.deviationM - t.deviationM) < 1e-6 * (1 + r.deviationM), "shifted by " << off << " ms: " << show(t) << " instead of " << show(r));
    dist = std::hypot(r.x - w.x, r.y - w.y);
    if (constant) REQUIRE("constant", dist < (useAb ? 1e-9 : 1e-6), "constant position " << show(p) << " reported as " << show(r));
    // with the speed limit the prediction cannot leave the last output by more than 4 m/s
    if (useAb && c.useSpeedConstraint && i) REQUIRE("bounded", dist <= 0.9 * (std::hypot(prevx - w.x, prevy - w.y) + 4 * step / 1000.0) + 1e-9 || dist == 0, "output " << show(r) << " runs away from " << show(p) << ", last output (" << prevx << "," << prevy << ")");
    if (i == pre) first = dist;
    prevx = r.x; prevy = r.y;
  }
  // a standing target is reached: the gains limit how fast
  double k = std::min(1.0, std::max(0.0, c.smoothing)), left = useAb ? (c.useAccuracyForSmoothing || k > 0.6 ? 1.0 : 0.02) : (k >= 0.5 ? 0.02 : 1.0);
  if (useAb || n * step / 1000.0 > s.commonSettings.sigAveragingTime + 2) {
    double lim = left < 1 ? left * (first + 25) : 1.5 * (first + 25);
    REQUIRE("standing target", dist <= lim, "after " << n << " equal positions the output is still " << dist << " m away (was " << first << ")");
  }
  g.nontrivial(pre > 2);
  g.label("constant history", constant);
}
static void lstsq(G& g) {
  NavigationSettings s = settings(g); auto& c = s.commonSettings;
  Area area = genArea(g); Level lev = makeLevel("A", area);
  PositionSmootherLstsq im(s); Lstsq mo(s);
  bool uniform = g.chance(1, 3);
  if (uniform) { c.useBarriers = false; c.smoothing = 1; im.~PositionSmootherLstsq(); new (&im) PositionSmootherLstsq(s); mo = Lstsq(s); }
  NOTE(g, "smoothing " << c.smoothing << ", barriers " << c.useBarriers << ", interval " << c.sigAveragingTime << ", shift " << c.sigWindowShift << ", area " << area.x1 << " x " << area.y1 << (uniform ? ", uniform motion" : ""));
  long long ts = g.pick({1000LL, 1700000000000LL}), t0 = ts;
  Walk w{g.real(0, area.x1), g.real(0, area.y1)};
  double ux = g.real(-1.5, 1.5), uy = g.real(-1.5, 1.5), x0 = w.x, y0 = w.y;
  int n = 3 + g.sized(40, 400), fits = 0, restarts = 0;
  for (int i = 0; i < n; i++) {
    if (i) { long long dt = gap(g, false); if (!uniform && g.chance(1, 12)) dt = g.pick({0LL, 3000LL, 7000LL}); ts += dt; w.step(g, dt / 1000.0, area.x1, area.y1); }
    if (uniform) { w.x = x0 + ux * (ts - t0) / 1000.0; w.y = y0 + uy * (ts - t0) / 1000.0; }
    Position p(w.x, w.y, LevelId("A"), 3.0, ts, false, g.boolean() ? Provider::INDOOR : Provider::FUSED, 0.25 * i);
    if (!uniform && g.chance(1, 30)) { im.reset(p); mo.reset(p); NOTE(g, "reset " << show(p)); }
    Position got = im.smoothPosition(p, lev);
    try { mo.smooth(p, area); } catch (Ambiguous&) { g.label("stopped at a decision boundary"); break; }
    NOTE(g, show(p) << " -> " << show(got) << "  model (" << (double)mo.x << "," << (double)mo.y << ") window " << mo.used);
    sameRest(got, mo.cur, "least-squares output");
    REQUIRE("radius", got.deviationM == mo.cur.deviationM, "radius changed to " << got.deviationM);
    REQUIRE("least squares", fabsl(got.x - mo.x) <= 2e-6 && fabsl(got.y - mo.y) <= 2e-6, "output " << show(got) << " instead of (" << (double)mo.x << "," << (double)mo.y << ")");
    if (uniform && mo.used >= 2) { double tt = (ts - t0) / 1000.0 - c.sigWindowShift; REQUIRE("uniform motion", std::fabs(got.x - x0 - ux * tt) < 1e-5 && std::fabs(got.y - y0 - uy * tt) < 1e-5, "output " << show(got) << " is not the motion delayed by the shift (" << x0 + ux * tt << "," << y0 + uy * tt << ")"); }
    fits += mo.used >= 2; restarts += mo.restarted;
  }
  g.nontrivial(fits >= 3);
  g.label("uniform", uniform); g.label("restart: area", restarts > 0);
}
static void timeSmoothing(G& g) {
  NavigationTimeSmoother im; TimeSm mo;
  long long ts = g.pick({1000LL, 1700000000000LL});
  Position p; std::string level = "A"; Position last2[2];
  int n = 3 + g.sized(60, 500), between = 0; bool have = false;
  for (int i = 0; i < n; i++) {
    ts += g.chance(1, 80) ? farGap(g) : g.pick({0LL, 100LL, 333LL, 1000LL, 1500LL});
    if (!have || g.chance(1, 3)) {
      if (g.chance(1, 12)) level = level == "A" ? "B" : "A";
      p = Position(g.real(-50, 50), g.real(-50, 50), LevelId(level), g.real(1, 9), g.chance(1, 12) ? ts + 500 : ts, false, g.pick({Provider::INDOOR, Provider::FUSED, Provider::GNSS}), g.pick({0.0, 1.5}));
      have = true;
    }
    LD ox, oy;
    Position q = im.getTimeSmoothedPosition(p, ts), want = mo.get(p, ts, p.x, p.y, ox, oy);
    NOTE(g, "now " << ts << " last " << show(p) << " -> " << show(q));
    sameRest(q, want, "time smoothing");
    REQUIRE("radius", q.deviationM == want.deviationM, "radius " << q.deviationM << " instead of " << want.deviationM);
    REQUIRE("interpolation", fabsl(q.x - ox) < 1e-9 && fabsl(q.y - oy) < 1e-9, "output " << show(q) << " instead of (" << (double)ox << "," << (double)oy << ")");
    if (mo.why == TimeSm::BETWEEN) between++;
  }
  g.nontrivial(between >= 2);
}
// the smoothers as wired into the post-processor: chosen by the settings, restarted on a level change
static void wired(G& g) {
  NavigationSettings s = settings(g); auto& c = s.commonSettings;
  c.useSmoothing = g.chance(4, 5); c.useTimeSmoothing = g.chance(1, 3); c.useAbFilter = g.boolean(); c.deadReckoningTime = 1000;
  c.useStops = g.chance(1, 3); c.stopDetectionTime = g.pick({2.0, 0.5, 5.0}); c.stopUpdateTime = g.pick({4.0, 0.0, 1000.0}); c.useStopsDistanceThresholdM = g.pick({1e6, 3.0});
  Area area; area.polys.push_back({rect(-500, -500, 500, 500), {}}); area.box();
  c.useBarriers = false;
  Level A = makeLevel("A", area), B = makeLevel("B", area);
  PositionPostprocessor pp(std::make_shared<LevelCollector>(), s); Ab ab(s); Lstsq ls(s); TimeSm tm;
  long long ts = g.pick({20000LL, 1700000000000LL}); std::string level = "A", lastLevel = "";
  Walk w{g.real(0, 50), g.real(0, 50)};
  NOTE(g, (c.useSmoothing ? c.useAbFilter ? "alpha-beta" : "least squares" : "no smoothing") << (c.useTimeSmoothing ? " + time smoothing" : "") << ", smoothing " << c.smoothing << ", interval " << c.sigAveragingTime << ", shift " << c.sigWindowShift);
  int n = 3 + g.sized(30, 300), changes = 0, held = 0; Position p; long long now = ts, step = -1;
  for (int i = 0; i < n; i++) {
    long long dt = gap(g, false); now += dt;
    if (i == 0 || g.chance(3, 4)) { ts = now; w.step(g, dt / 1000.0, 50, 50); if (g.chance(1, 10)) { level = level == "A" ? "B" : "A"; changes++; } p = Position(w.x, w.y, LevelId(level), 3.0, ts, false, g.pick({Provider::INDOOR, Provider::INDOOR, Provider::GNSS, Provider::FUSED}), 0); }
    MotionInfo mi; if (c.useStops && g.chance(1, 3)) step = mi.lastMotionTs = now - (long long)g.draw(1000);
    Position got = pp.getProcessedPosition(p, now, mi, level == "A" ? A : B);
    LD x = p.x, y = p.y; Position q = p;
    try {
      if (c.useSmoothing) {
        if (c.useAbFilter) { if (lastLevel != level) ab.reset(p); ab.smooth(p, area); x = ab.x; y = ab.y; q = ab.cur; if (ab.ex > 1e-7) throw Ambiguous(); }
        else { if (lastLevel != level) ls.reset(p); ls.smooth(p, area); x = ls.x; y = ls.y; q = ls.cur; }
      }
    } catch (Ambiguous&) { break; }
    lastLevel = level;
    q.x = (double)x; q.y = (double)y;
    if (c.useTimeSmoothing) { LD ox, oy; tm.get(q, now, x, y, ox, oy); x = ox; y = oy; }
    NOTE(g, "now " << now << " " << show(p) << " -> " << show(got) << " model (" << (double)x << "," << (double)y << ")");
    if (c.useStops && step > 0 && now - step >= (long long)(1000 * c.stopDetectionTime)) { held++; continue; }   // standing still: what is reported then is decided by C25
    if (fabsl(x) > 499 || fabsl(y) > 499) break;   // the fit extrapolated to the border of the box
    REQUIRE("wired smoothing", !got.isEmpty && fabsl(x - got.x) < 0.01 + 2e-6 && fabsl(y - got.y) < 0.01 + 2e-6, "reported " << show(got) << " instead of (" << (double)x << "," << (double)y << ") rounded to the centimetre");
  }
  g.nontrivial(n >= 5 && c.useSmoothing);
  g.label("level change", changes > 0); g.label("held in between", held > 0);
}
static std::vector<pbt::Sub> subs() { return {{"ab", ab, 40000, 1000000}, {"standing", standing, 20000, 500000}, {"lstsq", lstsq, 30000, 600000}, {"time", timeSmoothing, 30000, 500000}, {"wired", wired, 20000, 400000}}; }
PBT_MAIN(subs)
