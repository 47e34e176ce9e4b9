// C34: clients used from different threads. Several clients over one shared map run at the same time, each on a thread of its
// own, with readers of the map beside them; one client is handed from thread to thread. The oracle is the outputs of the same
// streams one after the other, and ThreadSanitizer's happens-before analysis: any unsynchronised access to something shared
// fails the case, whether or not this schedule made it visible.
#include "e2e.h"
#include <atomic>
#include <thread>
#include "src/sensor_fusion/pedometer.h"
#define navigation_core sa_pedometer
#include "standalone_algorithms/pedometer/include/pedometer.h"
#undef navigation_core
#define navigation_core sa_position
#include "standalone_algorithms/position_estimation/include/measurement_preprocessor.h"
#include "standalone_algorithms/position_estimation/include/nearest_transmitter_estimator.h"
#include "standalone_algorithms/position_estimation/include/position_smoother.h"
#undef navigation_core
#define navigation_core sa_filter
#include "standalone_algorithms/complementary_filter/include/vector3d.h"
#include "standalone_algorithms/complementary_filter/include/complementary_filter.h"
#undef navigation_core
#include "standalone_algorithms/trilateteration/src/trilateration.h"
using namespace e2e;
namespace sp = navigine::sa_pedometer; namespace sn = navigine::sa_position; namespace sf = navigine::sa_filter;
static std::atomic<int> races{0};
extern "C" void __tsan_on_report(void*) { races++; }
struct Start { std::atomic<int> waiting; explicit Start(int n) : waiting(n) {} void go() { waiting.fetch_sub(1, std::memory_order_relaxed); for (int i = 0; waiting.load(std::memory_order_relaxed) > 0 && i < 20000; i++) std::this_thread::yield(); } };
static bool same(const NavigationOutput& a, const NavigationOutput& b) {
  return a.status == b.status && (a.status != NavigationStatus::OK || (a.posLevel == b.posLevel && a.provider == b.provider && pbt::close(a.posLatitude, b.posLatitude, 1e-9) && pbt::close(a.posLongitude, b.posLongitude, 1e-9) && pbt::close(a.posR, b.posR, 1e-9) && pbt::close(a.posAltitude, b.posAltitude, 1e-9) && pbt::close(a.posOrientation, b.posOrientation, 1e-9)));
}
static void compare(const std::vector<NavigationOutput>& a, const std::vector<NavigationOutput>& b, const std::string& who) {
  REQUIRE("number of outputs", a.size() == b.size(), who << ": " << a.size() << " outputs instead of " << b.size());
  for (size_t i = 0; i < a.size(); i++) REQUIRE("outputs", same(a[i], b[i]), who << ", message " << i << ": " << show(a[i]) << " instead of " << show(b[i]));
}
static std::vector<std::vector<Measurement>> batches(const std::vector<Measurement>& m, size_t n) { std::vector<std::vector<Measurement>> r; for (size_t i = 0; i < m.size(); i += n) r.push_back({m.begin() + i, m.begin() + std::min(m.size(), i + n)}); return r; }
static int good(const std::vector<NavigationOutput>& o) { int n = 0; for (auto& x : o) n += x.status == NavigationStatus::OK; return n; }
struct User { NavigationSettings s; std::vector<Measurement> m; size_t batch; std::vector<NavigationOutput> out; std::vector<double> states; double asked = 0; };
static void use(const std::shared_ptr<LevelCollector>& lc, User& u) { auto c = createNavigationClient(lc, u.s); for (auto& b : batches(u.m, u.batch)) { auto o = c->navigate(b); u.out.insert(u.out.end(), o.begin(), o.end()); for (auto& s : c->getStates()) for (double d : {s.getStepLen(), (double)s.getStepCounter(), s.getHeading(), s.getIndoorPosition().x, s.getIndoorPosition().y, s.getOutdoorPosition().x, s.getOutdoorPosition().y}) u.states.push_back(d); } }
// questions to the map that every user of it may ask
static double ask(const LevelCollector& lc, const World& w) {
  double sum = 0;
  for (auto& l : lc.levels()) {
    const Box& b = l.geometry().boundingBox(); double x = b.max_corner().x(), y = b.max_corner().y();
    for (int k = 1; k < 8; k++) { Linestring p; p.push_back(Point(0.1, y * k / 8)); p.push_back(Point(std::min(x, 60.0) - 0.2, y * k / 8)); sum += l.geometry().isPathTouchesBarriers(p); }
    sum += b.min_corner().x() + l.bindingPoint().latitude + l.radiomap().referencePoints().size() + l.graph().hasVertex(0) + std::distance(l.graph().edgesBegin(), l.graph().edgesEnd());
    for (auto& r : l.radiomap().referencePoints()) sum += l.radiomap().getReferencePoint(r.id).point.x;
    for (auto& s : w.L) for (auto& t : s.txs) { auto id = lc.findLevelByTransmitterId(TransmitterId(t.id)); if (id) sum += lc.hasLevel(*id) && lc.level(*id).containsTransmitter(TransmitterId(t.id)) ? lc.level(*id).transmitter(TransmitterId(t.id)).point.x : 0; }
    sum += gpsToLocal(localToGps(XYPoint(1, 2), l.bindingPoint()), l.bindingPoint()).x;
  }
  return sum;
}
static void clients(G& g) {
  World w = genWorld(g); int n = 2 + (int)g.draw(2); std::vector<User> us(n); bool alike = g.chance(1, 4), reader = g.chance(1, 2), own = g.chance(1, 6);
  for (auto& u : us) { u.s = genSettings(g, w); if (alike) u.s = us[0].s; StreamOpt so; so.maxTicks = 12; so.steps = g.chance(1, 4); u.m = genStream(g, w, so); u.batch = g.pick({1, 10, 1000}); }
  note(g, w); for (auto& u : us) { NOTE(g, "client: " << show(u.s) << ", batches of " << u.batch); for (auto& m : u.m) NOTE(g, "  " << show(m)); }
  auto lc = collect(w); Start start(n + reader); int before = races;
  std::vector<std::thread> th; double sum = 0;
  for (auto& u : us) th.emplace_back([&, lc] { auto mine = own ? collect(w) : lc; start.go(); u.asked = ask(*mine, w); use(mine, u); });   // maps of their own: only what is global is shared
  if (reader) th.emplace_back([&, lc] { start.go(); for (int k = 0; k < 3; k++) sum += ask(*lc, w); });
  for (auto& t : th) t.join();
  REQUIRE("data race", races == before, "clients on different threads access the same data without synchronisation (see ThreadSanitizer's report)");
  int ok = 0; auto lc2 = collect(w); double answer = ask(*lc2, w);
  for (auto& u : us) REQUIRE("answers of the map", u.asked == answer, "a thread got other answers from the map than a single one: " << u.asked << " instead of " << answer);
  for (auto& u : us) { User v = u; v.out.clear(); v.states.clear(); use(lc2, v); REQUIRE("states", v.states.size() == u.states.size() && std::equal(v.states.begin(), v.states.end(), u.states.begin(), [](double a, double b) { return pbt::close(a, b, 1e-9) || (std::isnan(a) && std::isnan(b)); }), "client " << &u - &us[0] << ": other debug states than alone"); compare(u.out, v.out, "client " + std::to_string(&u - &us[0])); ok += good(v.out) > 0; }
  g.nontrivial(ok >= 2); g.label("reader", reader); g.label("same settings", alike); g.label("maps of their own", own);
}
static void handover(G& g) {
  World w = genWorld(g); User u; u.s = genSettings(g, w); StreamOpt so; so.maxTicks = 30; so.steps = g.chance(1, 4); u.m = genStream(g, w, so); u.batch = 1 + g.draw(u.m.size() / 4 + 1);
  if (u.m.empty()) g.discard();
  note(g, w); NOTE(g, show(u.s) << ", a new thread every " << u.batch << " messages"); for (auto& m : u.m) NOTE(g, "  " << show(m));
  auto bs = batches(u.m, u.batch); if (bs.size() > 40) g.discard();
  int before = races; std::shared_ptr<NavigationClient> c; std::vector<NavigationOutput> got;
  for (auto& b : bs) std::thread([&] { if (!c) c = createNavigationClient(collect(w), u.s); auto o = c->navigate(b); got.insert(got.end(), o.begin(), o.end()); }).join();
  REQUIRE("data race", races == before, "a client handed from thread to thread races (see ThreadSanitizer's report)");
  User v = u; v.out.clear(); use(collect(w), v); compare(got, v.out, "the client handed on");
  g.nontrivial(good(got) >= 3 && bs.size() > 1);
}
static void standalone(G& g) {
  struct Sa { std::vector<sn::RadioMeasurement> r; sn::Transmitters map; double avg, shift, s; std::vector<sp::SensorMeasurement> a; std::vector<double> out; };
  int n = 2 + (int)g.draw(2); std::vector<Sa> us(n);
  for (auto& u : us) {
    u.avg = g.pick({3.0, 1.0}); u.shift = g.pick({2.0, 0.5}); int ids = 1 + (int)g.draw(5); for (int i = 0; i < ids; i++) { sn::Transmitter t; t.id = "t" + std::to_string(i); t.x = g.real(0, 50); t.y = g.real(0, 50); u.map.push_back(t); }
    long long ts = 1000; int k = 5 + (int)g.draw(60); for (int i = 0; i < k; i++) { ts += (long long)g.draw(400); sn::RadioMeasurement m; m.id = "t" + std::to_string(g.draw(ids)); m.ts = ts; m.rssi = -g.real(40, 95); m.distance = 1; m.type = sn::RadioMeasurement::Type::BEACON; u.r.push_back(m); }
    double ph = 0; ts = 1000; k = 50 + (int)g.draw(150); for (int i = 0; i < k; i++) { ts += 40; ph += 2 * PI_ * 40 / 560; sp::SensorMeasurement m; m.ts = ts; m.values = sp::Vector3d(0.1, 0.1, 9.8 + 3.2 * std::sin(ph)); u.a.push_back(m); }
  }
  auto work = [](Sa& u) {
    sn::MeasurementsPreprocessor pp(u.avg, u.shift, true, true); sn::NearestTransmitterPositionEstimator est(u.map); sn::PositionSmoother sm(0.5);
    for (auto& m : u.r) {
      pp.update(m); auto r = pp.extractRadioMeasurements(); auto p = est.calculatePosition(r); u.out.push_back(p.isEmpty ? -1 : p.x); u.out.push_back(p.isEmpty ? -1 : p.y);
      if (!p.isEmpty) { p = sm.smoothPosition(p); u.out.push_back(p.x); u.out.push_back(p.y); }
    }
    std::vector<Beacon> bs; std::vector<BeaconMeas> ms; Trilateration tri;
    for (auto& t : u.map) { Beacon b; b.fillData(t.x, t.y, t.id, t.id, "loc"); bs.push_back(b); }
    tri.fillLocationBeacons(bs);
    for (size_t k = 0; k < u.r.size(); k += 10) {
      ms.clear(); for (size_t i = k; i < std::min(u.r.size(), k + 10); i++) { BeaconMeas e; e.setBeaconId(u.r[i].id); e.setRssi(u.r[i].rssi); e.setDistance(std::pow(10, (-40 - u.r[i].rssi) / 20)); ms.push_back(e); }
      tri.updateMeasurements(ms); int rc = tri.calculateCoordinates(); u.out.push_back(rc); if (!rc) { u.out.push_back(tri.getX()); u.out.push_back(tri.getY()); }
    }
    sf::ComplementaryFilter cf;
    for (auto& m : u.a) for (auto type : {sf::SensorMeasurement::Type::ACCELEROMETER, sf::SensorMeasurement::Type::GYROSCOPE, sf::SensorMeasurement::Type::MAGNETOMETER}) {
      sf::SensorMeasurement q; q.ts = m.ts; q.type = type; double k = type == sf::SensorMeasurement::Type::GYROSCOPE ? 0.05 : 1; q.values = sf::Vector3d(m.values.x * k, m.values.y * k, m.values.z * k); cf.update(q);
      auto o = cf.getFusedOrientation(); u.out.push_back(o.roll); u.out.push_back(o.pitch); u.out.push_back(o.yaw); u.out.push_back(cf.getMagneticAzimuth());
    }
    sp::Pedometer ped; Pedometer core;
    for (auto& m : u.a) {
      ped.update({m}); for (auto& s : ped.calculateSteps()) { u.out.push_back((double)s.ts); u.out.push_back(s.len); }
      SensorMeasurement q; q.ts = m.ts; q.data.type = ST::ACCELEROMETER; q.data.values = Vector3d(m.values.x, m.values.y, m.values.z); core.update(q); for (auto& s : core.calculateSteps()) { u.out.push_back((double)s.ts); u.out.push_back(s.len); }
    }
  };
  NOTE(g, n << " users"); for (auto& u : us) NOTE(g, u.r.size() << " signals of " << u.map.size() << " transmitters, averaging " << u.avg << " shift " << u.shift << ", " << u.a.size() << " accelerometer samples");
  static FILE* null = fopen("/dev/null", "w"); FILE* old = stdout; fflush(stdout); stdout = null;   // the library prints diagnostics
  int before = races; Start start(n); std::vector<std::thread> th; auto seq = us;
  for (auto& u : us) th.emplace_back([&] { start.go(); work(u); });
  for (auto& t : th) t.join();
  for (auto& s : seq) work(s);
  stdout = old;
  REQUIRE("data race", races == before, "standalone parts on different threads race (see ThreadSanitizer's report)");
  int moved = 0;
  for (int i = 0; i < n; i++) { REQUIRE("standalone outputs", seq[i].out.size() == us[i].out.size() && std::equal(seq[i].out.begin(), seq[i].out.end(), us[i].out.begin(), [](double a, double b) { return pbt::close(a, b, 1e-9); }), "user " << i << ": other results than alone"); moved += seq[i].out.size() > 2 * seq[i].r.size(); }
  g.nontrivial(moved >= 2);
}
static std::vector<pbt::Sub> subs() { return {{"clients", clients, 2400, 40000}, {"handover", handover, 1200, 20000}, {"standalone", standalone, 1200, 20000}}; }
PBT_MAIN(subs)
