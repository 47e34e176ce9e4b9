// C25: stop mode. A standing user's position is held and updated only rarely and nearby; a walking user's is passed on.
#include "e2e.h"
#include "src/position_postprocessor/position_postprocessor.h"
#include "src/navigation_client_impl.h"
using namespace e2e;
static std::string show(const Position& p) { std::ostringstream o; o << std::setprecision(12); if (p.isEmpty) o << "none"; else o << "(" << p.x << "," << p.y << ") level '" << p.levelId.value << "' dev " << p.deviationM << " provider " << (int)p.provider << " ts " << p.ts; return o.str(); }
static void hold(G& g) {
  NavigationSettings s; auto& c = s.commonSettings;
  c.useSmoothing = c.useTimeSmoothing = c.useGraphProjection = false;
  c.useStops = !g.chance(1, 10); c.stopDetectionTime = g.pick({3.0, 1.0, 0.5}); c.stopUpdateTime = g.pick({4.0, 1.0, 0.0}); c.useStopsDistanceThresholdM = g.pick({10.0, 2.0, 50.0}); c.deadReckoningTime = 5;
  Area area; area.polys.push_back({rect(0, 0, 60, 60), {}}); area.box();
  // every level has a coordinate system of its own
  auto lc = std::make_shared<LevelCollector>();
  double ox = g.pick({0.0, 0.0, 5.0, -30.0}), oy = g.pick({0.0, 4.0, 25.0}), blat, blon; toGeo(50, 10, ox, oy, blat, blon);
  for (int i = 0; i < 2; i++) { LevelSpec l; l.id = i ? "B" : "A"; l.lat0 = i ? blat : 50; l.lon0 = i ? blon : 10; l.W = l.H = 60; l.area.push_back({rect(0, 0, 60, 60), {}}); lc->addGeoLevel(toGeoLevel(l)); }
  const Level &A = lc->level(LevelId("A")), &B = lc->level(LevelId("B"));
  auto ground = [&](const Position& p, double& x, double& y) { x = p.x; y = p.y; if (p.levelId.value == "B") { double lat, lon; toGeo(blat, blon, p.x, p.y, lat, lon); toLocal(50, 10, lat, lon, x, y); } };
  NOTE(g, "level B starts at (" << ox << "," << oy << ") of level A");
  PositionPostprocessor pp(lc, s);
  long long now = g.pick({100000LL, 1700000000000LL}), step = 0, upd = -1, det = (long long)(1000 * c.stopDetectionTime), ut = (long long)(1000 * c.stopUpdateTime);
  NOTE(g, (c.useStops ? "stop mode" : "no stop mode") << " detection " << det << " update " << ut << " threshold " << c.useStopsDistanceThresholdM);
  Position last; pm::Walk w{g.real(0, 60), g.real(0, 60)}; std::string lev = "A";
  int n = 2 + g.sized(40, 300), held = 0, moved = 0, far = 0, walking = 0;
  for (int i = 0; i < n; i++) {
    long long dt = 0;
    switch (g.draw(4)) { case 0: dt = 200; break; case 1: dt = 1000; break; case 2: dt = (long long)g.draw(2000); break; case 3: dt = step ? std::max(0LL, step + det + (long long)g.range(-1, 1) - now) : 500; break; default: dt = upd >= 0 ? std::max(0LL, upd + ut + (long long)g.range(-1, 1) - now) : 500; }
    if (i && g.chance(1, 60)) dt = farGap(g);
    now += dt; w.step(g, dt / 1000.0, 60, 60);
    MotionInfo mi; mi.lastMotionTs = -1;
    if (g.chance(1, 8)) step = now - (g.boolean() ? 0 : (long long)g.draw(300));
    if (step) mi.lastMotionTs = step;
    if (g.chance(1, 12)) lev = lev == "A" ? "B" : "A";
    bool onB = lev == "B";
    Position p(std::min(59.9, std::max(0.1, w.x - (onB ? ox : 0))), std::min(59.9, std::max(0.1, w.y - (onB ? oy : 0))), LevelId(lev), g.pick({1.0, 2.0, 5.0}), now, g.chance(1, 15), g.boolean() ? Provider::GNSS : Provider::FUSED, 0.0);
    if (g.chance(1, 15)) p.ts = now - 5000;
    if (g.chance(1, 15)) p.x = -3;
    bool usable = !p.isEmpty && now - p.ts < 5000 && p.x >= 0;
    Position r = pp.getProcessedPosition(p, now, mi, lev == "A" ? A : B);
    NOTE(g, "now " << now << " last step " << step << " position " << show(p) << " -> " << show(r));
    if (!usable) { REQUIRE("unusable", r.isEmpty, "unusable position reported as " << show(r)); continue; }
    REQUIRE("reported", !r.isEmpty && r.ts == now, "a usable position gives " << show(r));
    bool standing = c.useStops && step && now - step >= det;
    double gx, gy, lx, ly; ground(p, gx, gy); ground(last, lx, ly);
    double d = std::hypot(gx - lx, gy - ly);
    if (std::fabs(d - c.useStopsDistanceThresholdM) < 1e-4) break;
    bool accept = !standing || last.isEmpty || (now - upd > ut && d < c.useStopsDistanceThresholdM) || (upd < 0 && d < c.useStopsDistanceThresholdM);
    if (accept) {
      REQUIRE("passed on", std::fabs(r.x - p.x) < 0.0101 && std::fabs(r.y - p.y) < 0.0101 && r.levelId == p.levelId && r.provider == p.provider && r.deviationM == p.deviationM, (standing ? "standing, update due" : "walking") << ": " << show(p) << " reported as " << show(r));
      (standing ? moved : walking)++;
      if (standing) upd = now;
      last = r;
    } else {
      REQUIRE("held", r.x == last.x && r.y == last.y && r.levelId == last.levelId && r.provider == last.provider && r.deviationM == last.deviationM, "standing: reported " << show(r) << " instead of keeping " << show(last));
      held++; far += d >= c.useStopsDistanceThresholdM;
    }
  }
  g.nontrivial(held > 0 && moved > 0);
  g.label("held", held > 0); g.label("updated while standing", moved > 0); g.label("too far", far > 0); g.label("walking", walking > 0);
}
static void client(G& g) {
  World w = genWorld(g); NavigationSettings s = genSettings(g, w); auto& c = s.commonSettings;
  c.useStops = true; c.useTimeSmoothing = g.chance(1, 5);
  if (g.boolean()) c.useInstantGpsPosition = false;
  StreamOpt o; o.maxTicks = 100; o.steps = true;
  auto m = genStream(g, w, o);
  if (m.empty()) g.discard();
  auto lc = collect(w);
  NavigationClientImpl cl(lc, s);
  auto out = cl.navigate(m); auto st = cl.getStates();
  if (g.wantNote) for (size_t i = 0; i < m.size(); i++) if (st[i].getStepCounter()) NOTE(g, "step counter " << st[i].getStepCounter() << " at message " << i << " " << m[i].ts);
  note(g, w); NOTE(g, show(s) << " detection " << c.stopDetectionTime << " update " << c.stopUpdateTime << " threshold " << c.useStopsDistanceThresholdM); note(g, m, out);
  if (out.size() != m.size() || st.size() != m.size()) g.discard();   // C16
  long long step = 0, upd = -1, det = (long long)(1000 * c.stopDetectionTime), ut = (long long)(1000 * c.stopUpdateTime); int cnt = 0, held = 0, moved = 0;
  for (size_t i = 0; i < out.size(); i++) {
    if (st[i].getStepCounter() > 0) { cnt++; step = m[i].ts; }
    if (i == 0) continue;
    auto &a = out[i - 1], &b = out[i];
    // satellite positions are reported directly while no level is detected
    if (a.status != NavigationStatus::OK || b.status != NavigationStatus::OK || a.provider != Provider::INDOOR || b.provider != Provider::INDOOR) { upd = -1; continue; }
    bool changed = a.posLatitude != b.posLatitude || a.posLongitude != b.posLongitude || !(a.posLevel == b.posLevel);
    if (!changed) { held++; continue; }
    bool standing = step && m[i].ts - step >= det;
    if (!standing) { upd = -1; continue; }
    moved++;
    REQUIRE("update time", upd < 0 || m[i].ts - upd > ut, "message " << i << ": standing since " << step << ", position changed at " << upd << " and again at " << m[i].ts);
    upd = m[i].ts;
    const Level &la = lc->level(a.posLevel); double ax, ay, bx, by;
    toLocal(la.bindingPoint().latitude, la.bindingPoint().longitude, a.posLatitude, a.posLongitude, ax, ay); toLocal(la.bindingPoint().latitude, la.bindingPoint().longitude, b.posLatitude, b.posLongitude, bx, by);
    if (!c.useGraphProjection) REQUIRE("distance", std::hypot(ax - bx, ay - by) < c.useStopsDistanceThresholdM + 0.02, "message " << i << ": standing, moved from (" << ax << "," << ay << ") to (" << bx << "," << by << ")");
  }
  g.nontrivial(held > 5 && cnt > 0);
  g.label("updated while standing", moved > 0);
}
static std::vector<pbt::Sub> subs() { return {{"hold", hold, 60000, 1500000}, {"client", client, 8000, 150000}}; }
PBT_MAIN(subs)
