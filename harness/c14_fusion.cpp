// C14: PositionPostprocessor::fusePositions against the uncertainty model of the statement.
#include "post_model.h"
#include "src/position_postprocessor/position_postprocessor.h"
using namespace pm;
static std::string show(const Position& p) { std::ostringstream o; o << std::setprecision(12); if (p.isEmpty) o << "none"; else o << "(" << p.x << "," << p.y << ") dev " << p.deviationM << " level '" << p.levelId.value << "' ts " << p.ts; return o.str(); }
static bool same(const Position& a, const Position& b) { return a.isEmpty == b.isEmpty && (a.isEmpty || (a.x == b.x && a.y == b.y && a.levelId == b.levelId && a.deviationM == b.deviationM && a.ts == b.ts && a.provider == b.provider)); }
static void fuse(G& g) {
  NavigationSettings s; auto& c = s.commonSettings;
  c.useGps = g.chance(9, 10); c.useInstantGpsPosition = g.chance(1, 12); c.preferIndoorSolution = g.chance(1, 6); c.fuseGps = g.chance(3, 4);
  c.priorDeviation = g.pick({50.0, 10.0, 3.0, 200.0}); c.averageMovSpeed = g.pick({1.0, 0.0, 3.0, 0.3}); c.fuseGpsBorderM = g.pick({10.0, 0.0, 3.0, 100.0}); c.positionIsTooOldSec = g.pick({20.0, 5.0, 1.0, 0.0});
  NOTE(g, "gps " << c.useGps << " instant " << c.useInstantGpsPosition << " prefer indoor " << c.preferIndoorSolution << " fuse " << c.fuseGps << " prior " << c.priorDeviation << " speed " << c.averageMovSpeed << " border " << c.fuseGpsBorderM << " too old " << c.positionIsTooOldSec);
  // two levels, usually with coordinate systems of their own (the origin is the corner of the level's box), and one unknown to the map
  auto lc = std::make_shared<LevelCollector>();
  LevelSpec L[2]; double ox = 0, oy = 0;
  for (int i = 0; i < 2; i++) { LevelSpec& l = L[i]; l.id = i ? "B" : "A"; l.lat0 = 50; l.lon0 = 10; l.W = l.H = 60; l.area.push_back({rect(0, 0, 60, 60), {}}); }
  if (g.chance(2, 3)) { ox = g.pick({0.0, 5.0, 40.0, -25.0}); oy = g.pick({0.0, 3.0, -30.0}); toGeo(50, 10, ox, oy, L[1].lat0, L[1].lon0); }
  for (auto& l : L) lc->addGeoLevel(toGeoLevel(l));
  NOTE(g, "level B starts at (" << ox << "," << oy << ") of level A");
  auto on = [&](const Position& p, const LevelId& id, LD& x, LD& y) {   // p in the coordinate system of a level
    x = p.x; y = p.y;
    auto spec = [&](const std::string& s) { return s == "A" ? &L[0] : s == "B" ? &L[1] : nullptr; };
    auto a = spec(p.levelId.value), b = spec(id.value);
    if (!a || !b || a == b) return;
    double lat, lon, u, v; toGeo(a->lat0, a->lon0, p.x, p.y, lat, lon); toLocal(b->lat0, b->lon0, lat, lon, u, v); x = u; y = v;
  };
  PositionPostprocessor pp(lc, s);
  Position in, out; LD inDev = 0, outDev = 0;
  long long ts = g.pick({1000LL, 1700000000000LL}), tooOld = (long long)(1000 * c.positionIsTooOldSec);
  Walk w{g.real(0, 60), g.real(0, 60)};
  std::string lev = g.pick({"A", "A", "B"}), outLev = g.chance(3, 4) ? "A" : "B";
  auto local = [&](Position p) { if (p.levelId.value == "B") { p.x -= ox; p.y -= oy; } return p; };
  auto alter = [&](Position& p) { switch (g.draw(4)) { case 0: p.x += 0.25; break; case 1: p.y += 0.25; break; case 2: p.deviationM += 1; break; case 3: p.levelId = LevelId(p.levelId.value == "A" ? "B" : "A"); break; default: p.ts = ts; } };
  int n = 1 + g.sized(40, 400), fused = 0, across = 0, chosen = 0, old = 0;
  for (int i = 0; i < n; i++) {
    long long dt = 0;
    switch (g.draw(5)) { case 0: break; case 1: dt = 1000; break; case 2: dt = (long long)g.draw(3000); break; case 3: dt = 100; break;
      case 4: dt = std::max(0LL, tooOld + (long long)g.range(-1, 1) - (in.isEmpty ? 0 : ts - in.ts)); break; default: dt = std::max(0LL, tooOld + (long long)g.range(-1, 1) - (out.isEmpty ? 0 : ts - out.ts)); }
    if (i && g.chance(1, 60)) dt = farGap(g);
    ts += dt; w.step(g, dt / 1000.0, 60, 60);
    if (g.chance(1, 12)) lev = lev == "A" ? "B" : g.chance(1, 6) ? "C" : "A";
    if (g.chance(1, 20)) outLev = outLev == "A" ? "B" : "A";
    Position a, b;
    if (g.chance(3, 5)) a = local(Position(w.x + g.real(-2, 2), w.y + g.real(-2, 2), LevelId(lev), g.pick({1.0, 3.0, 0.0, 8.0, 30.0}), ts, false, Provider::INDOOR, 0));
    else if (!in.isEmpty && g.chance(1, 3)) { a = in; if (g.chance(1, 4)) alter(a); }   // the last position repeated while there is no new one, or one that resembles it
    if (g.chance(1, 2)) { double f = g.pick({1.0, 1.0, 4.0}); b = local(Position(w.x + f * g.real(-8, 8), w.y + f * g.real(-8, 8), LevelId(outLev), g.pick({5.0, 8.0, 20.0, 1.0, 80.0, 300.0, 0.2}), std::max(out.ts, ts - (g.chance(1, 3) ? (long long)g.draw(900) : 0)), false, Provider::GNSS, 0)); }
    else if (!out.isEmpty && g.chance(1, 3)) { b = out; if (g.chance(1, 4)) alter(b); }   // the last fix repeated while it is valid: no new measurement
    NavigationStatus st = a.isEmpty ? g.pick({NavigationStatus::NO_SOLUTION, NavigationStatus::NO_LEVEL, NavigationStatus::OK}) : g.chance(1, 20) ? NavigationStatus::NO_SOLUTION : NavigationStatus::OK;
    // model
    if (!a.isEmpty && !same(a, in)) { LD prior = in.isEmpty ? (LD)c.priorDeviation : std::min<LD>(c.priorDeviation, inDev + (LD)c.averageMovSpeed * (a.ts - in.ts) / 1000); inDev = (prior + a.deviationM) / 2; in = a; }
    if (!b.isEmpty && !(same(b, out))) { LD prior = out.isEmpty ? (LD)c.priorDeviation : std::min<LD>(c.priorDeviation, outDev + (LD)c.averageMovSpeed * (b.ts - out.ts) / 1000); outDev = (prior + b.deviationM) / 2; out = b; }
    Position got = pp.fusePositions(ts, a, b, st);
    NOTE(g, "now " << ts << " indoor " << show(a) << " satellite " << show(b) << " status " << (int)st << " -> " << show(got));
    if (c.useInstantGpsPosition && !b.isEmpty) { REQUIRE("instant", same(got, b), "instant satellite mode reported " << show(got)); continue; }
    if (c.preferIndoorSolution && !a.isEmpty && st == NavigationStatus::OK) { REQUIRE("prefer indoor", same(got, a), "indoor preferred but reported " << show(got)); continue; }
    if (!c.useGps || out.isEmpty) { REQUIRE("indoor only", same(got, in), "no satellite position in use, reported " << show(got) << " instead of " << show(in)); continue; }
    if (in.isEmpty) { REQUIRE("satellite only", same(got, out), "no indoor position, reported " << show(got) << " instead of " << show(out)); continue; }
    long long ai = ts - in.ts, ao = ts - out.ts;
    if (ai > tooOld) { old++; REQUIRE("indoor too old", same(got, out), "indoor position is " << ai << " ms old, reported " << show(got)); continue; }
    if (ao > tooOld) { old++; REQUIRE("satellite too old", same(got, in), "satellite position is " << ao << " ms old, reported " << show(got)); continue; }
    LD di = inDev + (LD)c.averageMovSpeed * ai / 1000, d = outDev + (LD)c.averageMovSpeed * ao / 1000;
    LD gx, gy; on(out, in.levelId, gx, gy);
    LD dist = hypotl(in.x - gx, in.y - gy), acc = (LD)in.deviationM + out.deviationM + c.fuseGpsBorderM;
    if (fabsl(dist - acc) < 1e-6) break;
    if (c.fuseGps && dist < acc) {
      fused++; across += !(in.levelId == out.levelId) && (ox || oy);
      LD wi = d / (di + d), x = wi * in.x + (1 - wi) * gx, y = wi * in.y + (1 - wi) * gy;
      REQUIRE("fused attributes", !got.isEmpty && got.provider == Provider::FUSED && got.levelId == in.levelId && got.ts == std::max(in.ts, out.ts), "fused position " << show(got) << " provider " << (int)got.provider);
      REQUIRE("fused point", fabsl(got.x - x) < 1e-7 && fabsl(got.y - y) < 1e-7, "fused position " << show(got) << " instead of (" << (double)x << "," << (double)y << ") with deviations " << (double)di << " and " << (double)d);
      REQUIRE("fused radius", fabsl(got.deviationM - std::min(di, d)) < 1e-9, "radius " << got.deviationM << " instead of " << (double)std::min(di, d));
      // on the segment, strictly between the two (independent of the deviation model)
      REQUIRE("between", got.x >= std::min<LD>(in.x, gx) - 1e-7 && got.x <= std::max<LD>(in.x, gx) + 1e-7 && got.y >= std::min<LD>(in.y, gy) - 1e-7 && got.y <= std::max<LD>(in.y, gy) + 1e-7, "fused position " << show(got) << " is not between " << show(in) << " and " << show(out));
      REQUIRE("bounded deviation", di <= std::max<LD>(c.priorDeviation, in.deviationM) + (LD)c.averageMovSpeed * ai / 1000 + 1e-9, "model");
    } else {
      chosen++;
      if (fabsl(di - d) < 1e-9) REQUIRE("tie", same(got, in) || same(got, out), "reported " << show(got));
      else REQUIRE("smaller deviation", same(got, di < d ? in : out), "deviations " << (double)di << " (indoor) and " << (double)d << " (satellite), reported " << show(got));
    }
  }
  g.nontrivial(fused + chosen >= 2);
  g.label("fused", fused > 0); g.label("fused across coordinate systems", across > 0); g.label("chosen by deviation", chosen > 0); g.label("one too old", old > 0);
}
static std::vector<pbt::Sub> subs() { return {{"fuse", fuse, 160000, 2000000}}; }
PBT_MAIN(subs)
