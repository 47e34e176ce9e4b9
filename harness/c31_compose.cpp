// C31: the client is the composition of its parts: every message goes once through windowing, motion, level, satellite and
// indoor estimation, fusion and post-processing.  The parts (each decided by a check of its own) are wired here anew.
#include "e2e.h"
#include "src/measurements/measurement_preprocessor.h"
#include "src/sensor_fusion/sensor_fusion.h"
#include "src/level_estimator/level_estimator_radiomap.h"
#include "src/level_estimator/level_estimator_transmitters.h"
#include "src/position_estimator/position_estimator_knn.h"
#include "src/position_estimator/position_estimator_zone.h"
#include "src/position_estimator/position_estimator_outdoor.h"
#include "src/position_postprocessor/position_postprocessor.h"
#include "src/trilateration.h"
using namespace e2e;
struct Parts {
  std::shared_ptr<LevelCollector> lc; const CommonSettings c; bool knn;
  MeasurementsPreprocessor window; SensorFusion motion; PositionEstimatorOutdoor satellites; PositionPostprocessor post;
  std::unique_ptr<LevelEstimator> levels; std::unique_ptr<PositionEstimator> indoor;
  Position pos; bool wasIndoors = false; double lastHeading = 0, gyroThen = 0; bool haveHeading = false, turned = false;
  // what happened in the last message
  bool level = false, timedOut = false, noAction = false, fused = false, behind = false;
  Parts(const std::shared_ptr<LevelCollector>& l, const NavigationSettings& s) : lc(l), c(s.commonSettings), knn(c.useAlgorithm == CommonSettings::UseAlgorithm::KNN), window(l, s), motion(s), satellites(l, s), post(l, s) {
    if (knn || c.useRadiomap) levels.reset(new LevelEstimatorRadiomap(l, s)); else levels.reset(new LevelEstimatorTransmitters(l, s));
    if (knn) indoor.reset(new PositionEstimatorKnn(l, s)); else indoor.reset(new PositionEstimatorZone(l, s));
  }
  NavigationOutput next(const Measurement& m) {
    NavigationStatus why = NavigationStatus::OK;
    window.updateMeasurements(m);
    long long now = window.getCurrentTs(), silent = now - window.getLastSignalTs();
    auto sensor = window.getValidSensor();
    MotionInfo mi = motion.calculateDisplacement(sensor, now);
    auto radio = window.extractRadioMeasurements(mi.lastMotionTs);
    LevelId id = levels->calculateLevel(radio, sensor);
    Position out = satellites.calculatePosition(now, sensor, window.getCurrentNmea(), wasIndoors);
    wasIndoors = false;
    timedOut = silent >= 1000 * c.noSignalTimeThreshold;
    noAction = mi.lastMotionTs > 0 && silent >= 1000 * c.noActionTimeThreshold && now - mi.lastMotionTs >= 1000 * c.noActionTimeThreshold;
    if (timedOut || noAction) { indoor->reInit(); id = LevelId(); }
    level = lc->hasLevel(id); fused = behind = false;
    double orientation = mi.azimuth;                       // clockwise from north
    if (level) {
      Position in = indoor->calculatePosition(lc->level(id), now, radio, mi, why);
      wasIndoors = !in.isEmpty;
      Position f = post.fusePositions(now, in, out, why);
      fused = !f.isEmpty; behind = fused && f.provider == Provider::FUSED && f.levelId != id;
      bool newHeading = fused && haveHeading && f.heading != lastHeading, useAzimuth = mi.isAzimuthValid;
      if (newHeading) { gyroThen = mi.gyroHeading; turned = true; useAzimuth = false; }
      else if (turned) { orientation = mi.azimuth = M_PI_2 - (lastHeading - (mi.gyroHeading - gyroThen)); useAzimuth = true; }
      mi.isAzimuthValid = useAzimuth;
      if (fused) { lastHeading = f.heading; haveHeading = true; }
      pos = post.getProcessedPosition(f, now, mi, lc->level(fused ? f.levelId : id));
      if (!useAzimuth) orientation = M_PI_2 - f.heading;   // the direction of travel counts from east
    } else if (!out.isEmpty) pos = out;
    else why = NavigationStatus::NO_LEVEL;
    NavigationOutput o; o.status = why;
    if (pos.isEmpty) { if (why == NavigationStatus::OK) o.status = NavigationStatus::NAVIGATION_ERROR; return o; }
    o.status = NavigationStatus::OK; o.posLevel = pos.levelId; o.posR = pos.deviationM; o.provider = pos.provider;
    o.posOrientation = c.useEnuAzimuth ? M_PI_2 - orientation : orientation;
    if (pos.levelId.isValid()) {
      const Level& l = lc->level(pos.levelId);
      toGeo(l.bindingPoint().latitude, l.bindingPoint().longitude, pos.x, pos.y, o.posLatitude, o.posLongitude);
      if (c.useAltitude) { Trilateration t; auto a = t.calculateAltitude(l, radio); if (a) o.posAltitude = *a; }
    }
    return o;
  }
};
static double turn(double a) { return std::fabs(std::remainder(a, 2 * PI_)); }
static void compose(G& g) {
  // a level known by its reference points only: the position stays on the level left behind
  bool surveyed = g.chance(1, 6);
  WorldOpt wo; wo.sameFrame = surveyed && g.chance(3, 4);
  World w = genWorld(g, wo); NavigationSettings s = genSettings(g, w);
  auto& c = s.commonSettings; c.deviceAzimuthLifetimeSeconds = g.pick({10.0, 1.0, 0.0}); c.useCalculatedAzimuth = g.chance(1, 3);
  StreamOpt so; so.steps = g.chance(1, 3);
  if (g.chance(1, 6)) { so.steps = so.pauses = true; c.useAlgorithm = CommonSettings::UseAlgorithm::KNN; c.noActionTimeThreshold = 2; c.noSignalTimeThreshold = 35; c.minNumOfMeasurementsForPositionCalculation = 2 + (unsigned)g.draw(2); c.deadReckoningTime = 30; c.hasAccelerometer = true; }
  surveyed = surveyed && w.L.size() > 1;
  if (surveyed) { c.useAlgorithm = CommonSettings::UseAlgorithm::ZONES; c.useRadiomap = c.useUnknownTransmitters = c.useGps = c.fuseGps = true; c.useInstantGpsPosition = c.preferIndoorSolution = false; c.fuseGpsBorderM = 50; c.deadReckoningTime = 30; c.positionIsTooOldSec = 20; c.gpsValidTimeWindowSec = 5; c.maxGpsDeviation = 1e3; c.useGpsSigmaFilter = false; c.noSignalTimeThreshold = 35; c.measurementType = CommonSettings::MeasurementType::RSSI; }
  std::vector<Measurement> m; if (!surveyed) m = genStream(g, w, so);
  if (m.empty() && !surveyed) g.discard();
  if (surveyed) {
    size_t k = g.draw(w.L.size() - 1); World there{{w.L[(k + 1) % w.L.size()]}}, here{{w.L[k]}};
    so.maxTicks = 20; m = genStream(g, there, so); auto m2 = genStream(g, here, so);
    if (m.empty() || m2.empty()) g.discard();
    long long d = m.back().ts + 500 - m2[0].ts; for (auto& x : m2) { x.ts += d; m.push_back(x); }
    w.L[k].txs.resize(1); w.L[k].txs[0].id = "unheard";
  }
  auto lc = collect(w);
  // some messages come late: those of a batch are dropped
  if (g.chance(1, 4)) for (auto& x : m) if (g.chance(1, 12)) x.ts -= 1 + (long long)g.draw(3000);
  std::vector<size_t> cut; { int mode = (int)g.draw(2); for (size_t n = m.size(); n;) { size_t k = mode == 0 ? n : mode == 1 ? 1 : 1 + g.draw(30); k = std::min(k, n); cut.push_back(k); n -= k; } }
  note(g, w); NOTE(g, show(s) << " azimuth life " << c.deviceAzimuthLifetimeSeconds << (c.useCalculatedAzimuth ? " calculated" : ""));
  Parts p(lc, s); auto cl = createNavigationClient(lc, s);
  size_t i = 0; int ok = 0, lost = 0, sat = 0, mixed = 0, turnedN = 0, late = 0, dropped = 0, idle = 0, behind = 0; long long latest = m[0].ts; std::set<std::string> levels; std::set<double> dirs;
  for (size_t k : cut) {
    std::vector<Measurement> b(m.begin() + i, m.begin() + i + k);
    auto out = cl->navigate(b); size_t at = 0; long long top = b[0].ts;
    for (size_t j = 0; j < k; j++, i++) {
      if (b[j].ts < top) { dropped++; NOTE(g, show(b[j]) << " late"); continue; }
      top = b[j].ts; if (top < latest) late++; latest = std::max(latest, top);
      NavigationOutput want = p.next(b[j]); idle += p.noAction && !p.timedOut; behind += p.behind;
      REQUIRE("number of outputs", at < out.size(), "message " << i << ": no output");
      const NavigationOutput& x = out[at++];
      NOTE(g, show(b[j]) << " -> " << show(x) << (p.timedOut ? " [no signal]" : "") << (p.noAction ? " [no action]" : ""));
      REQUIRE("status", x.status == want.status, "message " << i << ": status " << (int)x.status << " instead of " << (int)want.status);
      if (x.status != NavigationStatus::OK) { lost++; continue; }
      ok++; levels.insert(x.posLevel.value); dirs.insert(x.posOrientation); sat += x.provider == Provider::GNSS; mixed += x.provider == Provider::FUSED; turnedN += p.turned;
      REQUIRE("level", x.posLevel == want.posLevel, "message " << i << ": " << show(x) << " instead of " << show(want));
      REQUIRE("provider", x.provider == want.provider, "message " << i << ": " << show(x) << " instead of " << show(want));
      REQUIRE("radius", x.posR == want.posR, "message " << i << ": " << show(x) << " instead of " << show(want));
      REQUIRE("altitude", std::fabs(x.posAltitude - want.posAltitude) <= 1e-9 * (1 + std::fabs(want.posAltitude)), "message " << i << ": " << show(x) << " instead of " << show(want));
      REQUIRE("orientation", turn(x.posOrientation - want.posOrientation) < 1e-6, "message " << i << ": " << show(x) << " instead of " << show(want));
      double e, n; toLocal(want.posLatitude, want.posLongitude, x.posLatitude, x.posLongitude, e, n);
      REQUIRE("position", std::hypot(e, n) < 0.001, "message " << i << ": " << show(x) << " instead of " << show(want));
    }
    REQUIRE("number of outputs", at == out.size(), out.size() << " outputs for " << at << " messages in time order");
  }
  g.nontrivial(ok >= 3);
  g.label("levels", levels.size() > 1); g.label("satellites", sat > 0); g.label("fused", mixed > 0); g.label("no position", lost > 0); g.label("no action", idle > 0); g.label("fused on the level left behind", behind > 0); g.label("turning", dirs.size() > 2); g.label("late within batch", dropped > 0); g.label("late between batches", late > 0); g.label("travel heading", turnedN > 0);
}
static std::vector<pbt::Sub> subs() { return {{"compose", compose, 22000, 300000}}; }
PBT_MAIN(subs)
