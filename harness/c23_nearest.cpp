// C23: standalone position pipeline: preprocessor against a model over the whole history, estimator and smoother against
// a reference recurrence, order of simultaneous signals.
#include "pbt.h"
#define navigation_core sa_position
#include "standalone_algorithms/position_estimation/include/measurement_preprocessor.h"
#include "standalone_algorithms/position_estimation/include/nearest_transmitter_estimator.h"
#undef navigation_core
using namespace navigine::sa_position;
using pbt::G;
typedef long double LD;
typedef RadioMeasurement::Type RT;
// ---- reference preprocessor: every result is recomputed from the list of all valid readings
struct RefWindow {
  long long shift, keep; bool wifi, ble;
  std::vector<RadioMeasurement> valid;
  bool any = false; long long last = 0, cur = 0;
  RefWindow(double avgSec, double shiftSec, bool w, bool b) : wifi(w), ble(b) {
    long long avg = (long long)(1000 * avgSec); shift = (long long)(1000 * shiftSec);
    if (shift == 0 || shift > avg) shift = avg;
    keep = avg - shift;
  }
  bool accepts(const RadioMeasurement& m) const { return (m.type == RT::WIFI ? wifi : ble) && m.rssi > -100 && m.rssi < 0; }
  void add(const RadioMeasurement& m) { if (!accepts(m)) return; if (!any) { any = true; last = cur = m.ts; } if (m.ts >= last) valid.push_back(m); else late++; cur = std::max(cur, m.ts); }
  int late = 0;   // came after the result they belonged to
  struct E { LD rssi = 0, dist = 0; long long ts = 0; int n = 0; RT type = RT::BEACON; };
  bool extract(std::map<std::string, E>& out) {
    out.clear();
    if (!any || cur - last < shift) return false;
    last = cur;
    for (size_t k = 0; k < valid.size(); k++) { E& e = out[valid[k].id]; e.rssi += valid[k].rssi; e.dist += valid[k].distance; e.n++; e.ts = std::max(e.ts, valid[k].ts); e.type = valid[k].type; }
    for (auto& kv : out) { kv.second.rssi /= kv.second.n; kv.second.dist /= kv.second.n; }
    if (keep == 0) valid.clear(); else valid.erase(std::remove_if(valid.begin(), valid.end(), [&](auto& m) { return m.ts < cur - keep; }), valid.end());
    return true;
  }
};
// ---- reference smoother
struct RefSmoother {
  LD a; bool called = false; LD x = 0, y = 0, vx = 0, vy = 0; double prec = 0; long long ts = -1; LD mag = 1, ep = 0, ev = 0;   // largest number met and the rounding error of place and speed (short gaps magnify it), for the tolerance
  explicit RefSmoother(double s = 0.9) { s = std::min(1.0, std::max(0.0, s)); a = 0.1L * s + 0.9L * (1 - (LD)s); }
  void next(LD px, LD py, double pr, long long t) {
    if (t <= ts) return;
    mag = std::max({mag, fabsl(px), fabsl(py)});
    LD dt = (t - ts) / 1000.0L;
    if (!called || dt > 10) { called = true; x = px; y = py; vx = vy = 0; ep = ev = 0; }
    else {
      LD b = a * a / (2 - a), ex = x + vx * dt, ey = y + vy * dt, m = 1e-15L * (4 + fabsl(x) + fabsl(y) + dt * hypotl(vx, vy) + fabsl(px) + fabsl(py)), np = (1 - a) * (ep + dt * ev) + m;
      ev = (1 - b) * ev + b / dt * (ep + m) + 1e-15L * hypotl(vx, vy); ep = np;
      vx += b / dt * (px - ex); vy += b / dt * (py - ey);
      x = ex + a * (px - ex); y = ey + a * (py - ey);
      mag = std::max({mag, fabsl(ex), fabsl(ey), fabsl(vx), fabsl(vy)});
    }
    prec = pr; ts = t;
  }
};
static std::string idOf(int i) { return i < 0 ? "unknown" + std::to_string(-i) : "(" + std::to_string(100 + i / 2) + "," + std::string(1 + i % 2, '7') + ",F78)"; }
struct Stream { std::vector<RadioMeasurement> m; std::vector<bool> extract; };
static Stream genStream(G& g, const RefWindow& w, int nIds, bool batches, bool late = false) {
  Stream s;
  long long ts = g.pick({0LL, 5LL, 1541003875242LL});
  int n = 2 + g.sized(60, 500);
  std::vector<RT> kind; for (int i = 0; i < nIds + 3; i++) kind.push_back(g.chance(1, 4) ? RT::WIFI : RT::BEACON);
  std::vector<double> base; for (int i = 0; i < nIds + 3; i++) base.push_back(-g.real(40, 95));
  bool each = g.boolean();   // ask after every reading
  for (int i = 0; i < n; i++) {
    switch (g.draw(6)) {
      case 0: case 1: break;
      case 2: ts += 1 + (long long)g.draw(300); break;
      case 3: ts += std::max(0LL, w.shift + (long long)g.range(-1, 1)); break;
      case 4: ts += std::max(0LL, w.keep + (long long)g.range(-1, 1)); break;
      case 5: ts += (long long)g.draw(1500); break;
      default: ts += g.chance(1, 12) ? farGap(g) : (long long)g.draw(g.chance(1, 3) ? 30000 : 3000);
    }
    RadioMeasurement m; m.ts = ts;
    if (late && g.chance(1, 8)) m.ts = std::max(0LL, ts - (g.boolean() ? 1 + (long long)g.draw(300) : (long long)g.draw(6000)));   // delivered late
    int k = (int)g.draw(nIds + 2);
    m.id = idOf(k < nIds ? k : nIds - k - 1); m.type = kind[k];
    m.rssi = base[k] + g.real(-8, 8);
    if (g.chance(1, 12)) m.rssi = g.pick({-100.0, -99.999, 0.0, -0.001, 7.0, -120.0});
    m.distance = g.real(0, 40); m.power = -59;
    s.m.push_back(m);
    s.extract.push_back(each || g.chance(1, 3));
  }
  if (batches) for (size_t i = 0; i + 1 < s.m.size(); i++) s.extract[i] = s.m[i + 1].ts != s.m[i].ts;   // only between different times
  return s;
}
static std::string show(const RadioMeasurement& m) { std::ostringstream o; o << std::setprecision(17) << m.ts << " " << m.id << " " << m.rssi << (m.type == RT::WIFI ? " WIFI" : " BEACON"); return o.str(); }
static void settings(G& g, double& avg, double& sh, bool& wifi, bool& ble) {
  avg = g.pick({3.0, 3.0, 1.0, 2.0, 0.5, 0.0}); sh = g.pick({2.0, 2.0, 1.0, 0.5, 0.0, 5.0});
  wifi = !g.chance(1, 4); ble = !g.chance(1, 6);
}
static void window(G& g) {
  double avg, sh; bool wifi, ble; settings(g, avg, sh, wifi, ble);
  NOTE(g, "averaging " << avg << " s, shift " << sh << " s, wifi " << wifi << ", ble " << ble);
  MeasurementsPreprocessor pp(avg, sh, wifi, ble);
  RefWindow ref(avg, sh, wifi, ble);
  bool late = g.chance(1, 3);
  Stream s = genStream(g, ref, (int)g.range(1, 8), false, late);
  int results = 0, multi = 0; long long latest = 0;
  for (size_t i = 0; i < s.m.size(); i++) {
    pp.update(s.m[i]); ref.add(s.m[i]);
    NOTE(g, show(s.m[i]) << (s.extract[i] ? " -> result?" : ""));
    latest = std::max(latest, s.m[i].ts);
    REQUIRE("current time", pp.getCurrentTs() == latest, "current time " << pp.getCurrentTs());
    if (!s.extract[i]) continue;
    auto got = pp.extractRadioMeasurements();
    std::map<std::string, RefWindow::E> exp;
    ref.extract(exp);
    auto txt = [&] { std::ostringstream o; o << "reading " << i << ":"; for (auto& m : got) o << " " << m.id << "=" << m.rssi; o << " expected:"; for (auto& e : exp) o << " " << e.first << "=" << (double)e.second.rssi << "(" << e.second.n << ")"; return o.str(); };
    REQUIRE("number of transmitters", got.size() == std::min<size_t>(5, exp.size()), txt());
    if (!exp.empty()) results++;
    std::set<std::string> seen; double weakest = 0;
    for (size_t k = 0; k < got.size(); k++) {
      auto& m = got[k];
      auto it = exp.find(m.id);
      REQUIRE("transmitter of the window", it != exp.end() && seen.insert(m.id).second, txt());
      REQUIRE("mean strength", std::fabs(m.rssi - (double)it->second.rssi) < 1e-9, txt());
      REQUIRE("mean distance", std::fabs(m.distance - (double)it->second.dist) < 1e-9, "mean distance of " << m.id << " is " << m.distance << " instead of " << (double)it->second.dist);
      REQUIRE("kind", m.type == it->second.type, "kind of " << m.id << " changed");
      REQUIRE("time", m.ts == it->second.ts, "time of the mean of " << m.id << " is " << m.ts << ", its latest reading is of " << it->second.ts);
      weakest = std::min(weakest, m.rssi);
      if (it->second.n > 1) multi++;
    }
    for (auto& e : exp) REQUIRE("strongest kept", seen.count(e.first) || e.second.rssi <= weakest + 1e-9, txt());
  }
  g.nontrivial(results >= 2 && multi > 0);
  g.label("reading after its result", ref.late > 0);
}
static void smoother(G& g) {
  double sm = g.pick({0.5, 0.9, 0.0, 1.0, 0.3, -1.0, 2.0});
  PositionSmoother p(sm);
  RefSmoother r(sm);
  long long ts = g.pick({0LL, 1000LL, 1541003875242LL});
  int n = 2 + g.sized(60, 500), moved = 0, restarts = 0;
  double x = g.real(-100, 100), y = g.real(-100, 100); bool still = g.chance(1, 5);
  for (int i = 0; i < n; i++) {
    switch (g.draw(5)) { case 0: break; case 1: ts += 10000 + (long long)g.range(-1, 1); break; case 2: ts += 1; break; case 3: if (i) ts -= (long long)g.draw(3000); if (ts < 0) ts = 0; break; default: ts += (long long)g.draw(4000); }
    if (!still) { x += g.real(-5, 5); y += g.real(-5, 5); if (g.chance(1, 20)) x = g.real(-1e4, 1e4); }
    Position q; q.x = x; q.y = y; q.ts = ts; q.precision = g.real(0.5, 9); q.isEmpty = false;
    long long before = r.ts;
    r.next(x, y, q.precision, ts);
    if (r.ts != before) { moved++; if (before >= 0 && r.ts - before > 10000) restarts++; }
    Position o = p.smoothPosition(q);
    NOTE(g, ts << " (" << x << "," << y << ") -> (" << o.x << "," << o.y << ")");
    double tol = 1e-9 * (double)r.mag + (double)r.ep; if (tol > 1e-3) break;   // numerically spent
    REQUIRE("recurrence", std::fabs(o.x - (double)r.x) < tol && std::fabs(o.y - (double)r.y) < tol, "position " << i << ": (" << o.x << "," << o.y << ") instead of (" << (double)r.x << "," << (double)r.y << ")");
    REQUIRE("time", o.ts == r.ts && o.precision == r.prec && !o.isEmpty, "time " << o.ts << " precision " << o.precision << " instead of " << r.ts << ", " << r.prec);
    if (still) REQUIRE("standing", std::fabs(o.x - x) < tol && std::fabs(o.y - y) < tol, "a constant position is moved to (" << o.x << "," << o.y << ")");
  }
  g.nontrivial(moved >= 3);
  g.label("restarted", restarts > 0);
}
static Transmitters genMap(G& g, int nIds) {
  Transmitters t;
  for (int i = 0; i < nIds; i++) { if (i && g.chance(1, 6)) continue; Transmitter q; q.id = idOf(i); q.x = g.real(-50, 250); q.y = g.real(-50, 250); q.type = Transmitter::Type::BEACON; t.push_back(q); }
  for (int i : g.permutation((int)t.size())) std::swap(t[i], t[0]);
  return t;
}
// estimator alone, on reading lists of its own (ties, any order)
static void nearest(G& g) {
  int nIds = (int)g.range(1, 6);
  Transmitters map = genMap(g, nIds);
  NearestTransmitterPositionEstimator est(map);
  RefSmoother r;
  long long ts = 1000;
  int n = 1 + g.small(25), pos = 0;
  for (auto& t : map) NOTE(g, "transmitter " << t.id << " (" << t.x << "," << t.y << ")");
  for (int i = 0; i < n; i++) {
    ts += g.chance(1, 60) ? farGap(g) : (long long)g.draw(g.chance(1, 6) ? 15000 : 3000);
    RadioMeasurements ms; std::string txt;
    int k = (int)g.draw(5);
    for (int j = 0; j < k; j++) { RadioMeasurement m; int id = (int)g.range(-2, nIds - 1); m.id = idOf(id); m.type = RT::BEACON; m.rssi = g.chance(1, 3) ? -(double)g.range(60, 63) : -g.real(30, 99); m.ts = std::max(0LL, ts - (long long)g.draw(1) * (long long)g.draw(1900)); 
      if (std::find_if(ms.begin(), ms.end(), [&](auto& q) { return q.id == m.id; }) != ms.end()) continue;
      ms.push_back(m); txt += " " + show(m); }
    Position o = est.calculatePosition(ms);
    NOTE(g, "readings" << txt << " -> (" << o.x << "," << o.y << ") " << (o.isEmpty ? "empty" : ""));
    double best = -1e9; long long latest = -1;
    std::vector<std::pair<const Transmitter*, double>> cand;
    for (auto& m : ms) for (auto& t : map) if (t.id == m.id) { if (m.rssi > best) { best = m.rssi; cand.clear(); } if (m.rssi == best) cand.push_back({&t, m.rssi}); latest = std::max(latest, m.ts); }
    REQUIRE("empty", o.isEmpty == cand.empty(), (o.isEmpty ? "no position although a known transmitter is heard" : "a position without any known transmitter"));
    if (cand.empty()) continue;
    pos++;
    bool ok = false; RefSmoother keep = r; std::string w;
    for (auto& c : cand) {
      RefSmoother q = r; q.next(c.first->x, c.first->y, std::sqrt(std::exp((-82 - c.second) / 3)) + 1, latest);
      w += " (" + pbt::str((double)q.x) + "," + pbt::str((double)q.y) + ")@" + std::to_string(q.ts);
      if (std::fabs(o.x - (double)q.x) < 1e-8 * (double)q.mag + (double)q.ep && std::fabs(o.y - (double)q.y) < 1e-8 * (double)q.mag + (double)q.ep && o.ts == q.ts && pbt::close(o.precision, q.prec, 1e-9)) { ok = true; keep = q; }
    }
    REQUIRE("strongest known transmitter", ok, "position (" << o.x << "," << o.y << ")@" << o.ts << " precision " << o.precision << ", expected one of" << w);
    r = keep;
  }
  g.nontrivial(pos >= 2);
}
// whole pipeline against the references; another order of simultaneous signals changes nothing
static void pipeline(G& g) {
  double avg, sh; bool wifi, ble; settings(g, avg, sh, wifi, ble);
  int nIds = (int)g.range(1, 7);
  Transmitters map = genMap(g, nIds);
  RefWindow ref(avg, sh, wifi, ble);
  Stream s = genStream(g, ref, nIds, true);
  // another order within groups of equal time
  std::vector<RadioMeasurement> other;
  for (size_t i = 0; i < s.m.size();) { size_t j = i; while (j < s.m.size() && s.m[j].ts == s.m[i].ts) j++; for (int k : g.permutation((int)(j - i))) other.push_back(s.m[i + k]); i = j; }
  NOTE(g, "averaging " << avg << " s, shift " << sh << " s, wifi " << wifi << ", ble " << ble);
  for (auto& t : map) NOTE(g, "transmitter " << t.id << " (" << t.x << "," << t.y << ")");
  MeasurementsPreprocessor pp(avg, sh, wifi, ble), pp2(avg, sh, wifi, ble);
  NearestTransmitterPositionEstimator est(map), est2(map);
  RefSmoother r;
  int pos = 0; long long lastTs = -1;
  for (size_t i = 0; i < s.m.size(); i++) {
    pp.update(s.m[i]); pp2.update(other[i]); ref.add(s.m[i]);
    NOTE(g, show(s.m[i]) << (s.extract[i] ? " -> position?" : ""));
    if (!s.extract[i]) continue;
    auto a = pp.extractRadioMeasurements(), b = pp2.extractRadioMeasurements();
    std::map<std::string, RefWindow::E> exp;
    ref.extract(exp);
    // the strongest five; ties are left out
    std::vector<std::pair<LD, std::string>> order; for (auto& e : exp) order.push_back({-e.second.rssi, e.first});
    std::sort(order.begin(), order.end());
    for (size_t k = 1; k < order.size(); k++) if (order[k].first - order[k - 1].first < 1e-6) throw pbt::Discard();
    if (order.size() > 5) order.resize(5);
    Position o = est.calculatePosition(a), o2 = est2.calculatePosition(b);
    const Transmitter* near = nullptr; double rs = 0; long long latest = -1;
    for (auto& q : order) for (auto& t : map) if (t.id == q.second) { if (!near) { near = &t; rs = (double)-q.first; } latest = std::max(latest, exp[q.second].ts); }
    REQUIRE("position exists", o.isEmpty == !near, "reading " << i << (near ? ": no position" : ": a position without known transmitters"));
    if (!near) { REQUIRE("order of simultaneous signals, none", o2.isEmpty, "reading " << i << ": a position only in another order"); continue; }
    pos++;
    r.next(near->x, near->y, std::sqrt(std::exp((-82 - rs) / 3)) + 1, latest);
    REQUIRE("order of simultaneous signals", o.isEmpty == o2.isEmpty && o.ts == o2.ts && std::fabs(o.x - o2.x) < 1e-8 * (double)r.mag + (double)r.ep && std::fabs(o.y - o2.y) < 1e-8 * (double)r.mag + (double)r.ep, "reading " << i << ": (" << o.x << "," << o.y << ")@" << o.ts << " became (" << o2.x << "," << o2.y << ")@" << o2.ts);
    REQUIRE("position", std::fabs(o.x - (double)r.x) < 1e-8 * (double)r.mag + (double)r.ep && std::fabs(o.y - (double)r.y) < 1e-8 * (double)r.mag + (double)r.ep && o.ts == r.ts && pbt::close(o.precision, r.prec, 1e-6), "reading " << i << ": (" << o.x << "," << o.y << ")@" << o.ts << " instead of (" << (double)r.x << "," << (double)r.y << ")@" << r.ts);
    REQUIRE("time order", o.ts >= lastTs, "positions go back in time");
    lastTs = o.ts;
  }
  g.nontrivial(pos >= 2);
}
static std::vector<pbt::Sub> subs() { return {{"window", window, 160000, 1500000}, {"smoother", smoother, 80000, 800000}, {"nearest", nearest, 80000, 800000}, {"pipeline", pipeline, 120000, 1000000}}; }
PBT_MAIN(subs)
