// C10: pedometers (navigation core, standalone, and through SensorFusion) against a reference detector over the whole history.
#include "pbt.h"
#include "src/sensor_fusion/pedometer.h"
#include "src/sensor_fusion/sensor_fusion.h"
#define navigation_core sa_pedometer
#include "standalone_algorithms/pedometer/include/pedometer.h"
#undef navigation_core
using namespace navigine::navigation_core;
namespace sa = navigine::sa_pedometer;
using pbt::G;
typedef SensorMeasurementData::Type ST;
struct Sample { long long ts; double x, y, z; };
struct RefStep { long long ts; double len; };
static const double THR = 0.05 * 9.80665;

// Reference: recomputes both windows of every sample from the list of all samples.
struct Ref {
  std::vector<Sample> all;
  std::vector<std::pair<long long, double>> mag;   // filtered magnitude per sample
  size_t kept = 0;                                 // first magnitude still considered
  long long last = -1;
  bool tie = false;
  static double norm(const Sample& s) { return std::sqrt(s.x * s.x + s.y * s.y + s.z * s.z); }
  bool add(const Sample& s, RefStep& out) {
    all.push_back(s);
    double sa = 0, sf = 0; int na = 0, nf = 0;
    for (size_t i = all.size(); i-- > 0;) {
      if (s.ts - all[i].ts >= 2500) break;
      sa += norm(all[i]); na++;
      if (s.ts - all[i].ts < 200) { sf += norm(all[i]); nf++; }
    }
    double f = sf / nf;
    mag.push_back({s.ts, f - (sa + f) / na});
    size_t n = mag.size() - kept;
    bool step = false;
    if (n > 3) {
      double cur = mag.back().second, prev = mag[mag.size() - 2].second;
      if (std::fabs(cur - THR) < 1e-9 || std::fabs(prev - THR) < 1e-9) tie = true;
      if (prev < THR && cur > THR && s.ts - last > 300) {
        step = true;
        double lo = 1e300, hi = -1e300;
        for (size_t i = mag.size() - 1; i-- > kept;) {
          lo = std::min(lo, mag[i].second); hi = std::max(hi, mag[i].second);
          if (s.ts - mag[i].first > 700) break;   // the last one older than 700 ms still counts
        }
        out = {s.ts, 0.52 * std::pow(hi - lo, 0.25)};
        last = s.ts;
      }
      while (s.ts - mag[kept].first > 1400) kept++;
    }
    return step;
  }
};
static void rotate(G& g, double m, double& x, double& y, double& z, bool fixed) {
  static thread_local double fx, fy, fz;
  double a, b, c, n;
  if (fixed) { x = m * fx; y = m * fy; z = m * fz; return; }
  do { a = g.uniform(-1, 1); b = g.uniform(-1, 1); c = g.uniform(-1, 1); n = std::sqrt(a * a + b * b + c * c); } while (n < 1e-3 && g.mode == G::RANDOM);
  if (n < 1e-3) { a = 0; b = 0; c = n = 1; }
  fx = a / n; fy = b / n; fz = c / n;
  x = m * fx; y = m * fy; z = m * fz;
}
// lengths agree when the magnitude ranges they stand for agree (the fourth root magnifies rounding near zero)
static bool sameLen(double a, double b) { return std::isfinite(a) && a >= 0 && std::fabs(std::pow(a / 0.52, 4) - std::pow(b / 0.52, 4)) <= 1e-8 * (1 + std::pow(b / 0.52, 4)); }
// magnitudes over time: rest, walk, shake, spikes, free fall, gaps
static std::vector<Sample> history(G& g, bool dense, bool restOnly) {
  std::vector<Sample> v;
  long long ts = g.pick({1000LL, 1600000000000LL});
  int segs = 1 + (int)g.draw(5);
  double x, y, z;
  rotate(g, 1, x, y, z, false);
  for (int s = 0; s < segs; s++) {
    int kind = restOnly ? 0 : g.weighted({1, 5, 2, 1, 1});
    int base = dense ? g.pick({10, 20, 50, 100}) : g.pick({10, 20, 40, 100, 190, 200, 201, 450});
    int n = (int)g.draw(4000 / base + 12);
    double amp = g.real(0.3, 7), hz = g.real(0.7, 3.2), ph = g.uniform(0, 6.28), g0 = 9.80665;
    bool spin = g.chance(1, 4);
    for (int i = 0; i < n; i++) {
      long long dt = base + (g.chance(1, 3) ? (int)g.range(-base / 2, base / 2) : 0);
      if (g.chance(1, 40)) dt = 0;
      if (!dense && g.chance(1, 60)) dt = g.pick({700, 701, 1400, 1401, 2500, 2499, 5001, 30000});
      if (!dense && g.chance(1, 400)) dt = farGap(g);
      ts += dt;
      double t = ts % 1000000 / 1000.0, m = g0;
      if (kind == 0) m = g0 + (restOnly ? 0.15 : 0.3) * g.uniform(-1, 1);
      else if (kind == 1) m = g0 + amp * std::sin(2 * M_PI * hz * t + ph) + 0.2 * g.uniform(-1, 1);
      else if (kind == 2) m = g0 + amp * g.uniform(-1, 1) * 3;
      else if (kind == 3) m = g.chance(1, 12) ? g0 + 20 * amp : g0;
      else m = 0;
      if (m < 0) m = 0;
      rotate(g, m, x, y, z, !spin);
      v.push_back({ts, x, y, z});
    }
  }
  return v;
}
static SensorMeasurement sensor(long long ts, ST type, double x, double y, double z) { SensorMeasurement m; m.ts = ts; m.data.type = type; m.data.values = Vector3d(x, y, z); return m; }
static sa::SensorMeasurement saSensor(const Sample& s, long long shift) { sa::SensorMeasurement m; m.ts = s.ts + shift; m.values = sa::Vector3d(s.x, s.y, s.z); return m; }

static void core(G& g) {
  auto h = history(g, false, false);
  Pedometer p, rot; sa::Pedometer one;
  Ref ref;
  long long shift = g.pick({0LL, 777LL, 1000000000LL});
  std::vector<RefStep> exp;
  long long prev = -1000000;
  for (auto& s : h) {
    RefStep e{0, 0};
    bool step = ref.add(s, e);
    if (ref.tie) g.discard();
    if (step) exp.push_back(e);
    p.update(sensor(s.ts, ST::ACCELEROMETER, s.x, s.y, s.z));
    auto got = p.calculateSteps();
    auto ctx = [&] { std::ostringstream o; o << "sample " << ref.all.size() << " at " << s.ts << " (filtered magnitude " << ref.mag.back().second << ", before " << (ref.mag.size() > 1 ? ref.mag[ref.mag.size() - 2].second : 0) << ", last step at " << ref.last << "): "; return o.str(); };
    REQUIRE("steps", got.size() == (step ? 1u : 0u), ctx() << got.size() << " steps reported, expected " << step);
    if (step) {
      REQUIRE("step time", got[0].ts == s.ts && got[0].ts > prev && got[0].ts - prev > 300, ctx() << "step stamped " << got[0].ts << " after " << prev);
      REQUIRE("step length", std::isfinite(got[0].len) && got[0].len >= 0 && sameLen(got[0].len, e.len), ctx() << "step length " << got[0].len << " instead of " << e.len);
      prev = got[0].ts;
    }
    // the same magnitudes from a differently held device, shifted in time, with other sensors in between
    double m = Ref::norm(s), x, y, z;
    rotate(g, m, x, y, z, false);
    if (g.chance(1, 4)) { rot.update(sensor(s.ts + shift, ST(1 + g.draw(4)), 100, 5, -3)); auto q = rot.calculateSteps(); REQUIRE("other sensor", q.empty(), ctx() << "a step from a message that is no accelerometer sample"); }
    rot.update(sensor(s.ts + shift, ST::ACCELEROMETER, x, y, z));
    auto r = rot.calculateSteps();
    REQUIRE("metamorphic", r.size() == got.size(), ctx() << "rotated and shifted device: " << r.size() << " steps instead of " << got.size());
    if (r.size() == 1) REQUIRE("metamorphic length", r[0].ts == got[0].ts + shift && sameLen(r[0].len, got[0].len), ctx() << "rotated and shifted device: step " << r[0].ts << "/" << r[0].len);
    one.update({saSensor(s, 0)});
    auto o = one.calculateSteps();
    REQUIRE("standalone", o.size() == got.size(), ctx() << "standalone pedometer: " << o.size() << " steps instead of " << got.size());
    if (o.size() == 1) REQUIRE("standalone step", o[0].ts == got[0].ts && sameLen(o[0].len, e.len), ctx() << "standalone pedometer: step " << o[0].ts << "/" << o[0].len);
  }
  NOTE(g, h.size() << " samples over " << (h.empty() ? 0 : h.back().ts - h[0].ts) << " ms, " << exp.size() << " steps" << (exp.empty() ? "" : ", first length ") << (exp.empty() ? 0 : exp[0].len));
  g.nontrivial(exp.size() >= 3);
}
// standalone pedometer fed in batches, dense sampling
static void batches(G& g) {
  auto h = history(g, true, false);
  sa::Pedometer p; Ref ref;
  std::vector<RefStep> exp; std::vector<sa::Step> got;
  size_t i = 0; int nb = 0;
  while (i < h.size()) {
    size_t k = 1 + g.small(150);
    std::vector<sa::SensorMeasurement> b;
    for (; k-- && i < h.size(); i++) {
      RefStep e;
      if (ref.add(h[i], e)) exp.push_back(e);
      if (ref.tie) g.discard();
      if (i == 3) for (size_t q = 1; q < 3; q++) if (ref.mag[q].second > THR) g.discard();
      b.push_back(saSensor(h[i], 0));
    }
    p.update(b); nb++;
    for (auto& s : p.calculateSteps()) got.push_back(s);
  }
  NOTE(g, h.size() << " samples in " << nb << " batches, " << exp.size() << " steps");
  g.nontrivial(exp.size() >= 3 && nb >= 2);
  REQUIRE("batched steps", got.size() == exp.size(), got.size() << " steps instead of " << exp.size() << " from " << nb << " batches");
  for (size_t k = 0; k < exp.size(); k++) {
    REQUIRE("batched step time", got[k].ts == exp[k].ts, "step " << k << " at " << got[k].ts << " instead of " << exp[k].ts);
    REQUIRE("batched step length", sameLen(got[k].len, exp[k].len), "step " << k << " length " << got[k].len << " instead of " << exp[k].len);
  }
}
static void rest(G& g) {
  auto h = history(g, false, true);
  Pedometer p; sa::Pedometer q;
  for (auto& s : h) {
    p.update(sensor(s.ts, ST::ACCELEROMETER, s.x, s.y, s.z));
    q.update({saSensor(s, 0)});
    REQUIRE("rest", p.calculateSteps().empty(), "a step of a resting device at " << s.ts);
    REQUIRE("rest standalone", q.calculateSteps().empty(), "a step of a resting device at " << s.ts);
  }
  NOTE(g, h.size() << " samples at rest");
  g.nontrivial(h.size() >= 20);
}
// what the sensor fusion makes of the steps
static void fusion(G& g) {
  auto h = history(g, false, false);
  NavigationSettings st;
  double mult = g.pick({1.0, 0.5, 2.0, 0.0, 7.0});
  st.commonSettings.stepMultiplier = mult;
  st.commonSettings.useCalculatedAzimuth = g.boolean();
  SensorFusion f(st); Ref ref;
  size_t count = 0; long long motion = 0;
  for (auto& s : h) {
    RefStep e;
    long long now = s.ts + (long long)g.draw(3);
    if (g.chance(1, 5)) { MotionInfo mi = f.calculateDisplacement(sensor(s.ts, ST::BAROMETER, 1000, 0, 0), now); REQUIRE("motion without sample", !mi.isStepDetected && mi.distance == 0, "motion of " << mi.distance << " m without an accelerometer sample"); }
    bool step = ref.add(s, e);
    if (ref.tie) g.discard();
    MotionInfo mi = f.calculateDisplacement(sensor(s.ts, ST::ACCELEROMETER, s.x, s.y, s.z), now);
    REQUIRE("step detected", mi.isStepDetected == step, "at " << s.ts << ": step detected " << mi.isStepDetected << " instead of " << step);
    if (step) {
      count++;
      REQUIRE("distance", (mult == 0 ? mi.distance == 0 : sameLen(mi.distance / mult, e.len)), "distance " << mi.distance << " instead of " << mult << " * " << e.len);
      REQUIRE("step counter", mi.stepCounter == count, "step counter " << mi.stepCounter << " after " << count << " steps");
      motion = now;
    } else REQUIRE("no distance", mi.distance == 0, "distance " << mi.distance << " without a step");
    REQUIRE("last motion", mi.lastMotionTs == motion, "last motion at " << mi.lastMotionTs << " instead of " << motion);
  }
  NOTE(g, count << " steps, multiplier " << mult);
  g.nontrivial(count >= 3);
}
static std::vector<pbt::Sub> subs() { return {{"core", core, 12000, 300000}, {"batches", batches, 12000, 250000}, {"rest", rest, 8000, 100000}, {"fusion", fusion, 6000, 100000}}; }
PBT_MAIN(subs)
