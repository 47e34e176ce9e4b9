// C11: complementary filters (core and standalone) against a rotation-matrix reference, plus analytic cases.
#include "pbt.h"
#include "src/sensor_fusion/complementary_filter.h"
#include "src/sensor_fusion/sensor_fusion.h"
#define navigation_core sa_filter
#include "standalone_algorithms/complementary_filter/include/complementary_filter.h"
#undef navigation_core
using namespace navigine::navigation_core;
namespace sa = navigine::sa_filter;
using pbt::G;
typedef SensorMeasurementData::Type ST;
typedef std::array<double, 3> V;
struct M3 { double a[3][3]; };
static V mul(const M3& m, const V& v) { V r; for (int i = 0; i < 3; i++) r[i] = m.a[i][0] * v[0] + m.a[i][1] * v[1] + m.a[i][2] * v[2]; return r; }
static M3 mul(const M3& p, const M3& q) { M3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { r.a[i][j] = 0; for (int k = 0; k < 3; k++) r.a[i][j] += p.a[i][k] * q.a[k][j]; } return r; }
static M3 tr(const M3& m) { M3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.a[i][j] = m.a[j][i]; return r; }
static V cross(const V& a, const V& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static double len(const V& v) { return std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); }
static V scale(const V& v, double k) { return {v[0] * k, v[1] * k, v[2] * k}; }
static V unit(const V& v) { double l = len(v); return l > 0 ? scale(v, 1 / l) : v; }
static M3 identity() { return {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}; }
// rotation about an axis (Rodrigues)
static M3 axisAngle(const V& ax, double ang) {
  V u = unit(ax); double c = std::cos(ang), s = std::sin(ang), t = 1 - c;
  return {{{t * u[0] * u[0] + c, t * u[0] * u[1] - s * u[2], t * u[0] * u[2] + s * u[1]},
           {t * u[0] * u[1] + s * u[2], t * u[1] * u[1] + c, t * u[1] * u[2] - s * u[0]},
           {t * u[0] * u[2] - s * u[1], t * u[1] * u[2] + s * u[0], t * u[2] * u[2] + c}}};
}
static M3 fromEuler(double roll, double pitch, double yaw) { return mul(axisAngle({0, 0, 1}, yaw), mul(axisAngle({0, 1, 0}, pitch), axisAngle({1, 0, 0}, roll))); }
static double wrap(double a) { return a - 2 * M_PI * std::floor((a + M_PI) / (2 * M_PI)); }
static double angDist(double a, double b) { double d = std::fabs(wrap(a - b)); return std::min(d, 2 * M_PI - d); }
// Reference filter. The attitude is a matrix (sensor frame -> global frame); a small rotation vector v turns it by 2 atan(|v|/2)
// about v, which is what adding half the quaternion product and renormalising amounts to.
struct Ref {
  double Ka, Km, Ki;
  M3 R = identity();
  V integral{0, 0, 0};
  long long gyroTs = -1;
  bool gyroSeen = false;
  double magAz = 0; bool magDefined = true;
  double gyroHeading = 0;
  void turn(const V& v) { double l = len(v); if (l > 0) R = mul(R, axisAngle(v, 2 * std::atan(l / 2))); }
  double yaw() const { return std::atan2(R.a[1][0], R.a[0][0]); }
  bool nearGimbal(double e = 1e-4) const { return std::fabs(R.a[2][0]) > 1 - e; }
  void acc(const V& a) { V e = cross(unit(a), mul(tr(R), V{0, 0, 1})); turn(scale(e, Ka)); for (int i = 0; i < 3; i++) integral[i] += Ki * e[i]; }
  void gyro(long long ts, const V& w) { double dt = gyroSeen ? (ts - gyroTs) / 1000.0 : 0; gyroSeen = true; gyroTs = ts; V o; for (int i = 0; i < 3; i++) o[i] = (w[i] + integral[i]) * dt; turn(o); gyroHeading = -yaw(); }
  void mag(const V& m0) {
    V m = unit(m0);
    if (!gyroSeen && len(m) > 0.5) {
      V gm = mul(R, m);
      V want{0, std::hypot(gm[0], gm[1]), gm[2]};
      V e = cross(m, mul(tr(R), want));
      turn(scale(e, Km));
      for (int i = 0; i < 3; i++) integral[i] += Ki * e[i];
    }
    // azimuth: angle from the device's heading to the horizontal field, tilt taken out
    V gm = mul(axisAngle({0, 0, 1}, -yaw()), mul(R, m));
    magDefined = std::hypot(gm[0], gm[1]) > 1e-6 && !nearGimbal();
    magAz = wrap(std::atan2(gm[1], gm[0]) - M_PI / 2);
  }
};
static SensorMeasurement sensor(long long ts, ST t, const V& v) { SensorMeasurement m; m.ts = ts; m.data.type = t; m.data.values = Vector3d(v[0], v[1], v[2]); return m; }
static sa::SensorMeasurement saSensor(long long ts, ST t, const V& v) { sa::SensorMeasurement m; m.ts = ts; m.type = sa::SensorMeasurement::Type((int)t); m.values = sa::Vector3d(v[0], v[1], v[2]); return m; }
static V randomV(G& g, double s) { return {s * g.real(-1, 1), s * g.real(-1, 1), s * g.real(-1, 1)}; }
template <class O> static void checkOrientation(const O& o, const Ref& ref, const std::string& ctx, const char* key) {
  REQUIRE(key, std::isfinite(o.roll) && std::isfinite(o.pitch) && std::isfinite(o.yaw), ctx << ": orientation " << o.roll << "," << o.pitch << "," << o.yaw << " is not finite");
  REQUIRE(key, std::fabs(o.pitch) <= M_PI / 2 + 1e-12 && std::fabs(o.roll) <= M_PI + 1e-12 && std::fabs(o.yaw) <= M_PI + 1e-12, ctx << ": orientation out of range");
  if (ref.nearGimbal()) return;
  M3 r = fromEuler(o.roll, o.pitch, o.yaw);
  double d = 0;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) d = std::max(d, std::fabs(r.a[i][j] - ref.R.a[i][j]));
  REQUIRE(key, d < 1e-5, ctx << ": orientation roll " << o.roll << " pitch " << o.pitch << " yaw " << o.yaw << " instead of roll " << std::atan2(ref.R.a[2][1], ref.R.a[2][2]) << " pitch " << -std::asin(std::max(-1.0, std::min(1.0, ref.R.a[2][0]))) << " yaw " << ref.yaw());
}
static void filter(G& g) {
  double Ka = 0.1, Km = 0.05, Ki = 0;
  bool custom = g.boolean();
  if (custom) { Ka = g.real(0, 0.5); Km = g.real(0, 0.5); Ki = g.pick({0.0, 0.0, 0.01, 0.1}); }
  NavigationSettings st;
  double life = g.pick({10.0, 0.5, 0.0});
  st.commonSettings.deviceAzimuthLifetimeSeconds = life;
  ComplementaryFilter f = custom ? ComplementaryFilter(st, Ka, Km, Ki) : ComplementaryFilter(st);
  sa::ComplementaryFilter sf = custom ? sa::ComplementaryFilter(Ka, Km, Ki) : sa::ComplementaryFilter();
  Ref ref{Ka, Km, Ki};
  NOTE(g, "gains " << Ka << " " << Km << " " << Ki << ", device azimuth lifetime " << life);
  long long ts = g.pick({0LL, 1000LL, 1600000000000LL}), devTs = -1;
  bool devSeen = false; double devAz = 0, lifeMs = life * 1000;
  bool useGyro = g.chance(2, 3);
  // true attitude used to make plausible readings
  M3 T = fromEuler(g.real(-3, 3), g.real(-1.4, 1.4), g.real(-3, 3));
  V omega = randomV(g, g.pick({0.0, 0.5, 4.0}));
  V field = {g.real(-0.3, 0.3), g.real(0.1, 0.4), g.real(-0.5, 0.5)};
  double noise = g.pick({0.0, 0.05, 0.5});
  int n = 1 + g.sized(120, 2500, 100), kinds[8] = {};
  for (int i = 0; i < n; i++) {
    long long dt = g.chance(1, 30) ? g.pick({0LL, 500LL, 501LL, 3000LL, 10000LL, 10001LL}) : (long long)g.draw(60);
    if (g.chance(1, 150)) dt = farGap(g);
    if (i) ts += dt;
    T = mul(T, axisAngle(omega, len(omega) * dt / 1000.0));
    if (g.chance(1, 30)) omega = randomV(g, 4.0);
    int k = useGyro ? g.weighted({4, 2, 4, 1, 1, 1}) : g.weighted({4, 4, 0, 1, 1, 1});
    V v{0, 0, 0};
    if (k == 0) { v = mul(tr(T), V{0, 0, 9.81}); V e = randomV(g, noise * 9.81); for (int j = 0; j < 3; j++) v[j] += e[j]; if (g.chance(1, 40)) v = {0, 0, 0}; if (g.chance(1, 60)) v = scale(v, 1e6); }
    if (k == 1) { v = mul(tr(T), field); V e = randomV(g, noise * 0.3); for (int j = 0; j < 3; j++) v[j] += e[j]; if (g.chance(1, 40)) v = {0, 0, 0}; }
    if (k == 2) { v = omega; V e = randomV(g, noise); for (int j = 0; j < 3; j++) v[j] += e[j]; }
    if (k == 3) v = {1000, 0, 0};
    if (k == 4) v = {g.real(-1, 1), 2, 3};
    if (k == 5) v = {g.real(-3.2, 3.2), 5, 6};
    ST types[] = {ST::ACCELEROMETER, ST::MAGNETOMETER, ST::GYROSCOPE, ST::BAROMETER, ST::LOCATION, ST::ORIENTATION};
    kinds[k]++;
    f.update(sensor(ts, types[k], v));
    sf.update(saSensor(ts, types[k], v));
    if (k == 0) { if (len(v) > 0) ref.acc(v); }
    if (k == 1) ref.mag(v);
    if (k == 2) ref.gyro(ts, v);
    if (k == 5) { devSeen = true; devTs = ts; devAz = v[0]; }
    static const char* names[] = {"accelerometer", "magnetometer", "gyroscope", "barometer", "location", "orientation"};
    std::ostringstream o; o << "message " << i << " (" << names[k] << " at " << ts << ")";
    NOTE(g, o.str() << " " << v[0] << " " << v[1] << " " << v[2]);
    checkOrientation(f.getFusedOrientation(), ref, o.str(), "orientation");
    checkOrientation(sf.getFusedOrientation(), ref, "standalone, " + o.str(), "standalone orientation");
    REQUIRE("time", f.getFusedOrientation().ts == ts && sf.getFusedOrientation().ts == ts, "orientation stamped " << f.getFusedOrientation().ts << " instead of " << ts);
    if (!ref.nearGimbal()) {
      REQUIRE("azimuth", angDist(f.getFusedAzimuth(), -ref.yaw()) < 1e-4, o.str() << ": fused azimuth " << f.getFusedAzimuth() << " instead of " << -ref.yaw());
      REQUIRE("standalone azimuth", angDist(sf.getFusedAzimuth(), -ref.yaw()) < 1e-4, o.str() << ": fused azimuth " << sf.getFusedAzimuth() << " instead of " << -ref.yaw());
      if (k == 2) REQUIRE("gyro heading", angDist(f.getGyroHeading(), -ref.yaw()) < 1e-4, o.str() << ": gyro heading " << f.getGyroHeading());
    }
    static thread_local double lastGyroHeading; if (i == 0) lastGyroHeading = 0;
    if (k == 2) lastGyroHeading = f.getGyroHeading();
    REQUIRE("gyro heading kept", f.getGyroHeading() == lastGyroHeading, o.str() << ": gyro heading changed to " << f.getGyroHeading() << " without a gyroscope sample");
    double az = f.getMagneticAzimuth();
    REQUIRE("magnetic range", az >= -M_PI && az < M_PI && sf.getMagneticAzimuth() >= -M_PI && sf.getMagneticAzimuth() < M_PI, o.str() << ": magnetic azimuth " << az);
    if (kinds[1] && ref.magDefined) {
      REQUIRE("magnetic azimuth", angDist(az, ref.magAz) < 1e-3, o.str() << ": magnetic azimuth " << az << " instead of " << ref.magAz);
      REQUIRE("standalone magnetic azimuth", angDist(sf.getMagneticAzimuth(), ref.magAz) < 1e-3, o.str() << ": magnetic azimuth " << sf.getMagneticAzimuth() << " instead of " << ref.magAz);
    }
    bool outdated = !devSeen || (double)(ts - devTs) > lifeMs;
    REQUIRE("device azimuth lifetime", f.isDeviceAzimuthOutdated() == outdated, o.str() << ": device azimuth outdated=" << f.isDeviceAzimuthOutdated() << ", age " << (devSeen ? ts - devTs : -1) << " ms, lifetime " << life << " s");
    REQUIRE("device azimuth", f.getDeviceAzimuth() == devAz && sf.getDeviceAzimuth() == devAz, o.str() << ": device azimuth " << f.getDeviceAzimuth() << " instead of " << devAz);
  }
  g.nontrivial(kinds[0] >= 3 && (kinds[1] + kinds[2]) >= 3);
  g.label("with gyroscope", kinds[2] > 0);
  g.label("magnetometer without gyroscope", kinds[1] > 0 && !kinds[2]);
}
// turning steadily about the vertical, held flat: the heading follows the true angle
static void turning(G& g) {
  NavigationSettings st; ComplementaryFilter f(st); sa::ComplementaryFilter sf;
  double w = g.real(-3, 3), angle = 0; long long ts = 1000000; int dt = g.pick({10, 20, 40}), n = 20 + g.small(400);
  int jitter = g.boolean() ? dt / 2 : 0;
  f.update(sensor(ts, ST::GYROSCOPE, {0, 0, w})); sf.update(saSensor(ts, ST::GYROSCOPE, {0, 0, w}));
  double worst = 0;
  for (int i = 0; i < n; i++) {
    long long d = dt + (jitter ? (long long)g.range(-jitter, jitter) : 0);
    ts += d; angle += w * d / 1000.0;
    f.update(sensor(ts, ST::GYROSCOPE, {0, 0, w})); sf.update(saSensor(ts, ST::GYROSCOPE, {0, 0, w}));
    if (g.boolean()) { f.update(sensor(ts, ST::ACCELEROMETER, {0, 0, 9.8})); sf.update(saSensor(ts, ST::ACCELEROMETER, {0, 0, 9.8})); }
    if (g.chance(1, 5)) { f.update(sensor(ts, ST::MAGNETOMETER, {0.3, 0.1, -0.2})); sf.update(saSensor(ts, ST::MAGNETOMETER, {0.3, 0.1, -0.2})); }
    worst += std::pow(std::fabs(w) * d / 1000.0, 3) / 10;
    REQUIRE("turn", angDist(-f.getFusedAzimuth(), angle) < 1e-6 + worst, "after turning by " << angle << " rad at " << w << " rad/s the heading is " << -f.getFusedAzimuth());
    REQUIRE("standalone turn", angDist(-sf.getFusedAzimuth(), angle) < 1e-6 + worst, "after turning by " << angle << " rad at " << w << " rad/s the heading is " << -sf.getFusedAzimuth());
  }
  NOTE(g, "rate " << w << " rad/s, " << n << " samples of " << dt << " ms, total angle " << angle);
  g.nontrivial(std::fabs(angle) > 1);
}
// a device lying still (after moving) converges to its true tilt; without gyroscope also to north
static void tilt(G& g) {
  NavigationSettings st; ComplementaryFilter f(st); sa::ComplementaryFilter sf;
  double roll = g.uniform(-2.6, 2.6), pitch = g.uniform(-1.2, 1.2), yaw = g.uniform(-3, 3);
  bool gyro = g.boolean(), magnet = !gyro;
  long long ts = 5000;
  auto feed = [&](ST t, const V& v) { f.update(sensor(ts, t, v)); sf.update(saSensor(ts, t, v)); };
  int pre = g.small(40);
  for (int i = 0; i < pre; i++) { ts += 20; if (gyro) feed(ST::GYROSCOPE, randomV(g, 3)); feed(ST::ACCELEROMETER, randomV(g, 10)); }
  M3 T = fromEuler(roll, pitch, yaw);
  V a = mul(tr(T), V{0, 0, 9.81}), m = mul(tr(T), V{0, 0.3, g.boolean() ? -0.3 : 0.2});
  for (int i = 0; i < 1500; i++) { ts += 20; if (gyro) feed(ST::GYROSCOPE, {0, 0, 0}); feed(ST::ACCELEROMETER, a); if (magnet) feed(ST::MAGNETOMETER, m); }
  for (int s = 0; s < 2; s++) {
    double r, p;
    if (s) { auto o = sf.getFusedOrientation(); r = o.roll; p = o.pitch; } else { auto o = f.getFusedOrientation(); r = o.roll; p = o.pitch; }
    if (gyro) REQUIRE("tilt", std::fabs(p - pitch) < 0.01 && angDist(r, roll) < 0.02, (s ? "standalone " : "") << "static tilt roll " << roll << " pitch " << pitch << " estimated as " << r << ", " << p);
    else REQUIRE("tilt", std::fabs(p - pitch) < 0.05 && angDist(r, roll) < 0.1, (s ? "standalone " : "") << "static tilt roll " << roll << " pitch " << pitch << " estimated as " << r << ", " << p);
  }
  NOTE(g, "roll " << roll << " pitch " << pitch << " yaw " << yaw << (gyro ? " with gyroscope" : " with magnetometer") << " after " << pre << " disturbances");
  g.nontrivial(std::fabs(roll) > 0.2 && std::fabs(pitch) > 0.2);
}
// what the sensor fusion hands on
static void motion(G& g) {
  NavigationSettings st; auto& c = st.commonSettings;
  c.useCalculatedAzimuth = g.boolean(); c.deviceAzimuthLifetimeSeconds = g.pick({10.0, 1.0, 0.0});
  SensorFusion sf(st); ComplementaryFilter f(st);
  long long ts = 10000;
  int n = 1 + g.small(60), valid = 0;
  for (int i = 0; i < n; i++) {
    ts += g.pick({0LL, 20LL, 300LL, 1000LL, 1001LL, 10001LL});
    if (g.chance(1, 60)) ts += farGap(g);
    ST t = ST(g.draw(5)); V v = randomV(g, 3);
    auto m = sensor(ts, t, v);
    MotionInfo mi = sf.calculateDisplacement(m, ts); f.update(m);
    REQUIRE("motion heading", mi.heading == -f.getFusedAzimuth() && mi.gyroHeading == f.getGyroHeading(), "heading " << mi.heading << " instead of " << -f.getFusedAzimuth());
    bool want = c.useCalculatedAzimuth || !f.isDeviceAzimuthOutdated();
    REQUIRE("azimuth validity", mi.isAzimuthValid == want, "azimuth valid=" << mi.isAzimuthValid << " instead of " << want);
    if (want) { valid++; REQUIRE("azimuth source", mi.azimuth == (c.useCalculatedAzimuth ? f.getMagneticAzimuth() : f.getDeviceAzimuth()), "azimuth " << mi.azimuth); }
  }
  NOTE(g, n << " messages, calculated azimuth " << c.useCalculatedAzimuth << ", valid " << valid);
  g.nontrivial(n >= 5 && valid >= 1);
}
// angle normalisation
static void angles(G& g) {
  int k = g.small(1000); double base = g.uniform(-3.14, 3.14); double x = base + 2 * M_PI * (g.boolean() ? k : -k);
  NOTE(g, "angle " << x);
  g.nontrivial(k > 0);
  for (int s = 0; s < 2; s++) {
    double y = s ? sa::to_minus_Pi_Pi(x) : to_minus_Pi_Pi(x);
    REQUIRE("normalised angle", y >= -M_PI && y < M_PI && angDist(y, base) < 1e-9, "angle " << x << " normalised to " << y << " instead of " << base);
  }
  for (double e : {M_PI, -M_PI, std::nextafter(M_PI, 0), std::nextafter(-M_PI, -4), 3 * M_PI, -3 * M_PI, 0.0, 2 * M_PI}) {
    double y = to_minus_Pi_Pi(e), z = sa::to_minus_Pi_Pi(e);
    REQUIRE("normalised angle range", y >= -M_PI && y < M_PI && z >= -M_PI && z < M_PI && angDist(y, e) < 1e-9, "angle " << e << " normalised to " << y << ", " << z);
  }
}
static std::vector<pbt::Sub> subs() { return {{"filter", filter, 120000, 1000000}, {"turning", turning, 4000, 60000}, {"tilt", tilt, 800, 16000}, {"motion", motion, 20000, 300000}, {"angles", angles, 20000, 200000}}; }
PBT_MAIN(subs)
