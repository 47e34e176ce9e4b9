// C22: standalone trilateration against an inverse-distance weighted mean of the measured known beacons.
#include "pbt.h"
#include <cstring>
#include <unistd.h>
#include "standalone_algorithms/trilateteration/src/trilateration.h"
using pbt::G;
typedef long double LD;
// the library prints diagnostics on stdout
struct Quiet {
  FILE* old; static FILE* null() { static FILE* f = fopen("/dev/null", "w"); return f; }
  Quiet() : old(stdout) { fflush(stdout); stdout = null(); }
  ~Quiet() { stdout = old; }
};
struct B { std::string id; double x, y; };
struct M { std::string id; double d, rssi; };
static std::vector<Beacon> beacons(const std::vector<B>& bs) {
  std::vector<Beacon> r;
  for (auto& b : bs) { Beacon e; e.fillData(b.x, b.y, b.id, "name of " + b.id, "loc"); r.push_back(e); }
  return r;
}
static std::vector<BeaconMeas> meas(const std::vector<M>& ms) {
  std::vector<BeaconMeas> r;
  for (auto& m : ms) { BeaconMeas e; e.setBeaconId(m.id); e.setRssi(m.rssi); e.setDistance(m.d); r.push_back(e); }
  return r;
}
struct Out { bool ok; LD x, y; };
static Out model(const std::vector<B>& bs, const std::vector<M>& ms) {
  std::map<std::string, std::pair<LD, int>> sum;
  for (auto& m : ms) { auto& s = sum[m.id]; s.first += m.d; s.second++; }
  LD W = 0, X = 0, Y = 0; int used = 0;
  for (auto& m : ms) if (m.d < 0) return {false, 0, 0};   // no distance
  for (auto& s : sum) {
    auto b = std::find_if(bs.begin(), bs.end(), [&](const B& q) { return q.id == s.first; });
    if (b == bs.end()) continue;
    LD w = 1 / (s.second.first / s.second.second);
    W += w; X += w * b->x; Y += w * b->y; used++;
  }
  if (used < 3) return {false, 0, 0};
  return {true, X / W, Y / W};
}
static int compute(Trilateration& t) { Quiet q; return t.calculateCoordinates(); }
static std::vector<B> genBeacons(G& g, double& extent) {
  int n = g.sized(9, 150, 60) + 1;
  const char* stem = g.pick({"", "", "F7826DA6-4FA2-4E98-8024-BC5B71E0893E/", "(56813,13249,F7826DA6-4FA2-"});   // long common beginnings
  extent = g.pick({30.0, 5.0, 300.0, 1e4});
  double cx = g.chance(1, 2) ? 0 : g.real(-500, 500), cy = g.chance(1, 2) ? 0 : g.real(-500, 500);
  std::vector<B> bs;
  for (int i = 0; i < n; i++) {
    std::string id = g.chance(1, 4) ? "(" + std::to_string(i / 2) + "," + std::string(1 + i % 2, '1') + ",F7826DA6)" : n > 10 ? "b" + std::to_string(i) : "b" + std::to_string(i * 7 % 11);   // prefixes of each other
    id = stem + id;
    double x = cx + g.real(-extent, extent), y = cy + g.real(-extent, extent);
    if (i && g.chance(1, 6)) x = bs.back().x;
    bs.push_back({id, x, y});
  }
  return bs;
}
static std::vector<M> genMeas(G& g, const std::vector<B>& bs, double extent) {
  int n = bs.size() > 10 ? (int)bs.size() + (int)g.draw(5) : (int)g.range(0, 14); bool bad = g.chance(1, 12);
  std::vector<M> ms;
  for (int i = 0; i < n; i++) {
    std::string id;
    int kind = g.weighted({8, 2, 2});
    if (kind == 0) id = bs[i < (int)bs.size() && !g.chance(1, 4) ? (size_t)i : (size_t)g.draw(bs.size() - 1)].id;
    else if (kind == 1) id = g.pick({std::string("u1"), std::string("u2"), std::string("(9,9,ABCDEF)")});
    else if (!ms.empty()) id = ms[g.draw(ms.size() - 1)].id;
    else id = bs[0].id;
    double d = g.chance(1, 5) ? (double)g.range(1, 20) : g.pick({1.0, 1.0, 1e-3, 100.0}) * (g.real(0.05, 1) * extent);
    if (bad && g.chance(1, n)) d = -g.pick({0.01, 0.5, 3.0});
    ms.push_back({id, d, g.chance(1, 12) ? (double)g.range(0, 5) : -g.real(30, 100)});
  }
  return ms;
}
static std::string show(const std::vector<B>& bs, const std::vector<M>& ms) {
  std::string s = "beacons";
  for (auto& b : bs) s += " " + b.id + "@(" + pbt::str(b.x) + "," + pbt::str(b.y) + ")";
  s += "; measured";
  for (auto& m : ms) s += " " + m.id + ":" + pbt::str(m.d);
  return s;
}
static double tolFor(const std::vector<B>& bs) { double m = 1; for (auto& b : bs) m = std::max(m, std::max(std::fabs(b.x), std::fabs(b.y))); return 1e-9 * m; }
static void single(G& g) {
  double ext; auto bs = genBeacons(g, ext); auto ms = genMeas(g, bs, ext);
  NOTE(g, show(bs, ms));
  Trilateration t;
  auto lb = beacons(bs); auto lm = meas(ms);
  t.fillLocationBeacons(lb); t.updateMeasurements(lm);
  int rc = compute(t);
  Out e = model(bs, ms);
  g.label(e.ok ? "solved" : "error");
  g.nontrivial(e.ok);
  REQUIRE("usable", (rc == 0) == e.ok, "code " + std::to_string(rc) + (e.ok ? " although three beacons are usable" : " although fewer than three beacons are usable or a distance is negative"));
  if (!e.ok) return;
  double tol = tolFor(bs);
  REQUIRE("weighted-mean", std::fabs(t.getX() - (double)e.x) < tol && std::fabs(t.getY() - (double)e.y) < tol, "(" + pbt::str(t.getX()) + "," + pbt::str(t.getY()) + ") instead of (" + pbt::str((double)e.x) + "," + pbt::str((double)e.y) + ")");
  // inside the hull of the used beacons: no direction in which the result lies beyond all of them
  for (int k = 0; k < 16; k++) {
    double ux = std::cos(k * M_PI / 8), uy = std::sin(k * M_PI / 8), far = -1e300;
    for (auto& b : bs) for (auto& m : ms) if (m.id == b.id) far = std::max(far, ux * b.x + uy * b.y);
    REQUIRE("hull", ux * t.getX() + uy * t.getY() <= far + tol, "the result lies beyond every measured beacon");
  }
}
static void relations(G& g) {
  double ext; auto bs = genBeacons(g, ext); auto ms = genMeas(g, bs, ext);
  if (bs.size() < 3) throw pbt::Discard();
  double dx = g.real(-1000, 1000), dy = g.real(-1000, 1000), k = g.pick({2.0, 0.5, 10.0});
  auto perm = g.permutation((int)ms.size()), bperm = g.permutation((int)bs.size());
  NOTE(g, show(bs, ms) + "; moved by (" + pbt::str(dx) + "," + pbt::str(dy) + ")");
  auto run = [&](const std::vector<B>& b, const std::vector<M>& m, double& x, double& y) { Trilateration t; auto lb = beacons(b); auto lm = meas(m); t.fillLocationBeacons(lb); t.updateMeasurements(lm); int rc = compute(t); x = t.getX(); y = t.getY(); return rc; };
  double x, y, x2, y2;
  int rc = run(bs, ms, x, y);
  g.nontrivial(rc == 0);
  std::vector<B> b2 = bs; for (auto& b : b2) { b.x += dx; b.y += dy; }
  double tol = tolFor(b2) + tolFor(bs);
  int rc2 = run(b2, ms, x2, y2);
  REQUIRE("shift", rc == rc2 && (rc || (std::fabs(x2 - x - dx) < tol && std::fabs(y2 - y - dy) < tol)), "shifting the beacons moved the result from (" + pbt::str(x) + "," + pbt::str(y) + ") to (" + pbt::str(x2) + "," + pbt::str(y2) + ")");
  std::vector<M> m2; for (int i : perm) m2.push_back(ms[i]);
  std::vector<B> b3; for (int i : bperm) b3.push_back(bs[i]);
  rc2 = run(b3, m2, x2, y2);
  REQUIRE("order", rc == rc2 && (rc || (std::fabs(x2 - x) < tol && std::fabs(y2 - y) < tol)), "another order gave (" + pbt::str(x2) + "," + pbt::str(y2) + ") instead of (" + pbt::str(x) + "," + pbt::str(y) + ")");
  std::vector<M> m3 = ms; for (auto& m : m3) m.d *= k;
  rc2 = run(bs, m3, x2, y2);
  REQUIRE("scale", rc == rc2 && (rc || (std::fabs(x2 - x) < tol && std::fabs(y2 - y) < tol)), "scaling all distances changed the result");
  std::vector<M> m4 = ms; m4.insert(m4.begin() + g.draw(ms.size()), M{"zz", 0.7, -50.0});
  rc2 = run(bs, m4, x2, y2);
  REQUIRE("unknown", rc == rc2 && (rc || (std::fabs(x2 - x) < tol && std::fabs(y2 - y) < tol)), "a measurement of an unknown beacon changed the result");
}
// one object through a history of updates and computations; whenever it computes it equals a fresh object
static void history(G& g) {
  double ext; auto bs = genBeacons(g, ext);
  std::vector<M> ms;
  Trilateration t;
  auto lb = beacons(bs); t.fillLocationBeacons(lb);
  int ops = (int)g.range(2, 12), solved = 0;
  for (int i = 0; i < ops; i++) {
    int op = i == 0 ? 0 : g.weighted({4, 6, 1, 1});
    if (op == 0) { ms = genMeas(g, bs, ext); auto lm = meas(ms); t.updateMeasurements(lm); NOTE(g, "update: " + show(bs, ms)); }
    else if (op == 2) { bs = genBeacons(g, ext); auto l2 = beacons(bs); t.fillLocationBeacons(l2); ms = genMeas(g, bs, ext); auto lm = meas(ms); t.updateMeasurements(lm); NOTE(g, "new map: " + show(bs, ms)); }
    else if (op == 3) { int loc = (int)g.range(0, 5); t.setCurrentLocationId(loc); Trilateration c(t); REQUIRE("copy", c.getX() == t.getX() && c.getY() == t.getY() && c.getCurrentLocationId() == loc, "a copy holds another result: (" << c.getX() << "," << c.getY() << ") instead of (" << t.getX() << "," << t.getY() << ")"); t.setCurrentLocationId((int)g.range(0, 5)); int a = compute(c), b = compute(t); NOTE(g, "copied");
      REQUIRE("copy", a == b && (a || (c.getX() == t.getX() && c.getY() == t.getY())), "a copy computes another result"); }
    else {
      int rc = compute(t);
      NOTE(g, "compute");
      Out e = model(bs, ms);
      REQUIRE("usable-again", (rc == 0) == e.ok, "code " + std::to_string(rc) + " at operation " + std::to_string(i));
      double tol = tolFor(bs);
      if (e.ok) { solved++; REQUIRE("repeatable", std::fabs(t.getX() - (double)e.x) < tol && std::fabs(t.getY() - (double)e.y) < tol, "operation " + std::to_string(i) + " gives (" + pbt::str(t.getX()) + "," + pbt::str(t.getY()) + "), a fresh object (" + pbt::str((double)e.x) + "," + pbt::str((double)e.y) + ")"); }
    }
  }
  g.nontrivial(solved >= 2);
}
// what a beacon or a measurement is given is what it holds, a copy holds the same and stays as it is, and identity is the identifier
static void records(G& g) {
  auto id = [&] { std::string r; int n = (int)g.range(1, 4); for (int i = 0; i < n; i++) r += (char)('a' + g.draw(1)); return r; };
  auto num = [&] { return g.pick({0.0, 1.0, -1.0, g.real(-1e5, 1e5), g.real(-1, 1)}); };
  std::string i1 = id(), i2 = id(); double x = num(), y = num(), x2 = num(), y2 = num();
  NOTE(g, i1 << " (" << x << "," << y << ") " << i2 << " (" << x2 << "," << y2 << ")");
  Beacon fresh; REQUIRE("beacon", fresh.getX() == 0 && fresh.getY() == 0 && fresh.getLocationId() == 0 && !*fresh.getId(), "a new beacon is not empty");
  Beacon a; a.fillData(x, y, i1, id(), id()); int loc = (int)g.range(-5, 1000); a.setLocationId(loc);
  REQUIRE("beacon", a.getX() == x && a.getY() == y && i1 == a.getId() && a.getLocationId() == loc, "fillData: (" << a.getX() << "," << a.getY() << ") " << a.getId() << " in " << a.getLocationId());
  Beacon b(a); Beacon c; c = a;
  b.setX(x2); c.setY(y2);
  REQUIRE("beacon", b.getX() == x2 && b.getY() == y && c.getX() == x && c.getY() == y2 && i1 == b.getId() && b.getLocationId() == loc && a.getX() == x && a.getY() == y, "a copied beacon: (" << b.getX() << "," << b.getY() << "), (" << c.getX() << "," << c.getY() << ")");
  REQUIRE("equal beacons", a == b && !(a != b), "beacons of one identifier differ");
  b.setBeaconId(i2); b.setLocationName("hall");
  REQUIRE("equal beacons", (a == b) == (i1 == i2) && (a != b) == (i1 != i2) && i2 == b.getId(), "beacons " << i1 << " and " << i2 << " compare as " << (a == b));
  IBeacon ib; REQUIRE("ibeacon", ib.getMajor() == 0 && ib.getMinor() == 0 && !*ib.getUuid(), "a new iBeacon is not empty");
  unsigned ma = (unsigned)g.draw(65535), mi = (unsigned)g.draw(65535); ib.setMajor(ma); ib.setMinor(mi); ib.setUuid(i1.c_str()); ib.setX(x); ib.setY(y); ib.setBeaconId(i2);
  IBeacon ic(ib); ib.setMajor(ma ^ 1); ib.setUuid("z"); ib.setY(y2);
  REQUIRE("ibeacon", ic.getMajor() == (int)ma && ic.getMinor() == (int)mi && i1 == ic.getUuid() && ic.getX() == x && ic.getY() == y && i2 == ic.getId() && ib.getMajor() == (int)(ma ^ 1) && ib.getMinor() == (int)mi && std::string("z") == ib.getUuid() && ib.getY() == y2, "a copied iBeacon: " << ic.getMajor() << "/" << ic.getMinor() << "/" << ic.getUuid());
  double r1 = num(), r2 = num(), d1 = num(), d2 = g.chance(1, 3) ? d1 : num();
  BeaconMeas m(&a, r1, d1), n(m);
  REQUIRE("measurement", m.getRssi() == r1 && m.getDistance() == d1 && m.getBeaconPtr() == &a && i1 == m.getBeaconId(), "a measurement of " << r1 << "dB, " << d1 << "m holds " << m.getRssi() << "dB, " << m.getDistance() << "m");
  n.setRssi(r2); n.setDistance(d2);
  REQUIRE("measurement", n.getRssi() == r2 && n.getDistance() == d2 && n.getBeaconPtr() == &a && i1 == n.getBeaconId() && m.getRssi() == r1 && m.getDistance() == d1, "a copied measurement: " << n.getRssi() << "dB, " << n.getDistance() << "m");
  REQUIRE("order of measurements", (m < n) == (d1 < d2) && (m > n) == (d1 > d2) && !(m < m) && !(m > m), "measurements of " << d1 << "m and " << d2 << "m: < gives " << (m < n) << ", > gives " << (m > n));
  REQUIRE("equal measurements", m == n && !(m != n), "measurements of one beacon differ");
  n.setBeaconId(i2); n.setBeaconPtr(&b);
  REQUIRE("equal measurements", (m == n) == (i1 == i2) && (m != n) == (i1 != i2) && n.getBeaconPtr() == &b && i2 == n.getBeaconId(), "measurements of " << i1 << " and " << i2 << " compare as " << (m == n));
  REQUIRE("order of names", compareBeaconMeasByName(m, n) == (i1 < i2) && compareBeaconMeasByName(n, m) == (i2 < i1), "names " << i1 << " and " << i2 << " compare as " << compareBeaconMeasByName(m, n));
  // the filter keeps the measurements of known beacons, in order, and attaches them
  double ext; auto bs = genBeacons(g, ext); auto ms = genMeas(g, bs, ext); auto lb = beacons(bs); auto lm = meas(ms);
  std::vector<BeaconMeas> f = lm; Trilateration::filterUnknownBeacons(f, lb);
  size_t k = 0; for (auto& q : ms) { const B* at = nullptr; for (auto& z : bs) if (z.id == q.id) { at = &z; break; } if (!at) continue; REQUIRE("filter", k < f.size() && q.id == f[k].getBeaconId() && f[k].getDistance() == q.d && f[k].getBeaconPtr()->getX() == at->x && f[k].getBeaconPtr()->getY() == at->y, "the filter gives something else than the measurement of " << q.id); k++; }
  REQUIRE("filter", k == f.size(), "the filter keeps " << f.size() << " of " << k << " measurements of known beacons");
  if (g.chance(1, 60)) {   // the result as a file
    Trilateration t; auto lf = lb; auto l2 = lm; t.fillLocationBeacons(lf); t.updateMeasurements(l2); compute(t);
    char name[] = "/tmp/verif-xy-XXXXXX"; int fd = mkstemp(name);
    if (fd >= 0) {
      t.printXyToFile(name); FILE* in = fdopen(fd, "r"); double fx = NAN, fy = NAN; int n = fscanf(in, "%lf %lf", &fx, &fy); fclose(in); unlink(name);
      REQUIRE("result file", n == 2 && std::fabs(fx - t.getX()) < 1e-6 && std::fabs(fy - t.getY()) < 1e-6, "the file holds (" << fx << "," << fy << ") instead of (" << t.getX() << "," << t.getY() << ")");
    }
  }
  g.nontrivial(i1 != i2 && x != x2);
}
static std::vector<pbt::Sub> subs() { return {{"single", single, 60000, 400000}, {"relations", relations, 30000, 200000}, {"history", history, 30000, 200000}, {"records", records, 30000, 200000}}; }
PBT_MAIN(subs)
