// Models of the position smoothers, indoor/outdoor fusion and position post-processing, written from the property statements.
#pragma once
#include "mapgen.h"
#include <navigine/navigation-core/navigation_settings.h>
#include "src/position.h"
namespace pm {
using namespace mg;
typedef long double LD;
struct Ambiguous {};   // the exact value sits on a decision boundary: the case is not judged

// walkable area of a level, in local metres
struct Area {
  std::vector<PolySpec> polys;
  double x0 = 1e300, y0 = 1e300, x1 = -1e300, y1 = -1e300;   // bounding box
  void box() { for (auto& p : polys) for (auto& q : p.outer) { x0 = std::min(x0, q.first); x1 = std::max(x1, q.first); y0 = std::min(y0, q.second); y1 = std::max(y1, q.second); } }
  static LD distSeg(LD x, LD y, const XY& a, const XY& b) {
    LD dx = (LD)b.first - a.first, dy = (LD)b.second - a.second, l = dx * dx + dy * dy, t = l > 0 ? ((x - a.first) * dx + (y - a.second) * dy) / l : 0;
    t = std::max<LD>(0, std::min<LD>(1, t));
    return hypotl(x - a.first - t * dx, y - a.second - t * dy);
  }
  static bool in(const PRing& r, LD x, LD y) {
    bool c = false;
    for (size_t i = 0, j = r.size() - 1; i < r.size(); j = i++)
      if (((LD)r[i].second > y) != ((LD)r[j].second > y) && x < ((LD)r[j].first - r[i].first) * (y - r[i].second) / ((LD)r[j].second - r[i].second) + r[i].first) c = !c;
    return c;
  }
  bool covers(LD x, LD y, LD margin) const {
    bool any = false;
    for (auto& p : polys) {
      std::vector<const PRing*> rs{&p.outer};
      for (auto& r : p.inners) rs.push_back(&r);
      for (auto r : rs) for (size_t i = 0; i < r->size(); i++) if (distSeg(x, y, (*r)[i], (*r)[(i + 1) % r->size()]) <= margin) throw Ambiguous();
      bool c = in(p.outer, x, y);
      for (auto& r : p.inners) c = c && !in(r, x, y);
      any = any || c;
    }
    return any;
  }
};
inline Multipolygon toMulti(const Area& a, std::list<Polygon>& polys) {
  Multipolygon m;
  for (auto& p : a.polys) {
    Polygon q;
    for (auto& v : p.outer) q.outer().push_back(Point(v.first, v.second));
    for (auto& r : p.inners) { q.inners().push_back({}); for (auto& v : r) q.inners().back().push_back(Point(v.first, v.second)); }
    polys.push_back(q);
  }
  return m;
}
inline Level makeLevel(const std::string& id, const Area& a) {
  Level l(LevelId(id), GeoPoint(50, 10));
  std::list<Polygon> polys; toMulti(a, polys);
  l.setGeometry(getGeometry(polys));
  return l;
}
inline Area genArea(G& g) {   // 20-100 m room, possibly with holes and a second room
  Area a;
  double w = 20 + 10.0 * g.draw(8), h = 20 + 10.0 * g.draw(8);
  PolySpec p; p.outer = rect(0, 0, w, h);
  int nh = (int)g.draw(2);
  for (int i = 0; i < nh; i++) { double x = 2 + i * w / 2 + (double)g.draw(3), y = 3 + (double)g.draw(8); p.inners.push_back(rect(x, y, x + 2 + g.draw(3), y + 3 + g.draw(4))); }
  a.polys.push_back(p);
  if (g.chance(1, 3)) a.polys.push_back({rect(w + 5, 0, w + 25, h), {}});
  a.box();
  return a;
}

// alpha-beta smoother; x and y carry an accumulated rounding error bound, decisions closer than that are not judged
struct Ab {
  bool useBarriers, limit, accuracy; LD alpha;
  bool started = false; LD x = 0, y = 0, vx = 0, vy = 0, dev = 0, ex = 0, ev = 0; long long ts = 0;
  Position cur;   // last returned (x, y, dev are taken from the fields above)
  enum Why { FIRST, STALE, LONG, FAST, OUTSIDE, SMOOTHED } why = FIRST;
  explicit Ab(const NavigationSettings& s) : useBarriers(s.commonSettings.useBarriers), limit(s.commonSettings.useSpeedConstraint), accuracy(s.commonSettings.useAccuracyForSmoothing) {
    LD k = std::min(1.0, std::max(0.0, s.commonSettings.smoothing));
    alpha = 0.1L * k + 0.9L * (1 - k);
  }
  void set(const Position& p) { cur = p; x = p.x; y = p.y; dev = p.deviationM; ts = p.ts; vx = vy = 0; ex = ev = 0; }
  void reset(const Position& p) { set(p); }
  void smooth(const Position& p, const Area& area) {
    if (p.ts <= ts) { why = STALE; return; }
    LD t = (LD)(p.ts - ts) / 1000, a = alpha;
    if (accuracy) a = std::min<LD>(0.9L, std::max<LD>(0.1L, dev / (p.deviationM + dev + 0.5L)));
    LD b = a * a / (2 - a), rx = p.x - (x + vx * t), ry = p.y - (y + vy * t);
    LD wx = vx + b / t * rx, wy = vy + b / t * ry, sx = p.x - (1 - a) * rx, sy = p.y - (1 - a) * ry, v = hypotl(wx, wy);
    LD mag = 1e-15L * (4 + fabsl(x) + fabsl(y) + t * hypotl(vx, vy) + fabsl(p.x) + fabsl(p.y));
    LD nex = (1 - a) * (ex + t * ev) + mag, nev = (1 - b) * ev + b / t * (ex + mag) + 1e-15L * (v + hypotl(vx, vy));
    why = SMOOTHED;
    if (!started) why = FIRST;
    else if (p.ts - ts > 10000) why = LONG;
    else {
      if (nex > 1e-6) throw Ambiguous();
      if (limit && fabsl(v - 4) < 1e-9 + nev) throw Ambiguous();
      if (limit && v > 4) why = FAST;
      else if (useBarriers && !area.covers(sx, sy, 1e-9 + nex)) why = OUTSIDE;
    }
    if (why != SMOOTHED) { started = true; set(p); return; }
    LD nd = p.deviationM;
    if (accuracy) nd = (1 - a) * (p.deviationM + t * v) + a * p.deviationM;
    vx = wx; vy = wy; x = sx; y = sy; ex = nex; ev = nev; ts = p.ts; dev = nd; cur = p;
  }
};
// least-squares straight line over a sliding time interval, evaluated the window shift ago
struct Line {
  LD interval, shift, w, last = 0;
  std::deque<std::pair<LD, LD>> q;
  void add(LD t, LD v) { if (!q.empty() && t <= q.back().first) return; q.push_back({t, v}); for (auto& p : q) if (fabsl(t - p.first - interval) < 1e-9) throw Ambiguous(); while (q.back().first - q.front().first > interval) { q.pop_front(); } }
  LD predict(LD t) {
    if (q.size() == 1) return last = q[0].second;
    LD mt = 0, mv = 0, s = 0, c = 0;
    for (auto& p : q) { mt += p.first; mv += p.second; }
    mt /= q.size(); mv /= q.size();
    for (auto& p : q) { s += (p.first - mt) * (p.first - mt); c += (p.first - mt) * (p.second - mv); }
    return last = w * (mv + c / s * (t - shift - mt)) + (1 - w) * last;
  }
};
struct Lstsq {
  bool useBarriers, started = false; Line fx, fy; long long start = 0, lastTs = 0; LD x = 0, y = 0; Position cur; int used = 0; bool restarted = false;
  explicit Lstsq(const NavigationSettings& s) : useBarriers(s.commonSettings.useBarriers) {
    LD k = std::min(1.0, std::max(0.0, s.commonSettings.smoothing));
    fx = fy = Line{s.commonSettings.sigAveragingTime, s.commonSettings.sigWindowShift, k};
  }
  void reset(const Position& p) { fx.q.clear(); fy.q.clear(); start = p.ts; lastTs = 0; }
  void smooth(const Position& p, const Area& area) {
    used = 0; restarted = false;
    if (started && p.ts <= lastTs) return;   // nothing new: the last output is repeated
    x = p.x; y = p.y; cur = p; lastTs = p.ts;
    if (!started) { started = true; start = p.ts; return; }
    LD t = (LD)((p.ts - start) / 1000.0);   // the seconds as a double: the interval boundary depends on it
    fx.add(t, p.x); fy.add(t, p.y);
    LD sx = fx.predict(t), sy = fy.predict(t);
    if (useBarriers && !area.covers(sx, sy, 1e-5)) { reset(p); lastTs = p.ts; restarted = true; return; }
    x = sx; y = sy; used = (int)fx.q.size();
  }
};
// interpolation between the last two positions, one step behind
struct TimeSm {
  Position prev, next;
  enum Why { FUTURE, NEWLEVEL, SAME, OLD, BETWEEN } why = FUTURE;
  Position get(const Position& p, long long now, LD px, LD py, LD& ox, LD& oy) {   // px, py: exact coordinates of p
    ox = px; oy = py; why = FUTURE;
    if (now < p.ts) return p;
    why = NEWLEVEL;
    if (!(prev.levelId == p.levelId) || !(next.levelId == p.levelId)) { prev = next = p; return p; }
    if (prev.isEmpty || next.isEmpty || p.isEmpty) { prev = next; next = p; return p; }
    if (p.ts > next.ts) { prev = next; next = p; }
    why = SAME;
    if (next.ts == prev.ts) { ox = next.x; oy = next.y; return next; }
    LD a = now - next.ts, k = next.ts - prev.ts;
    why = OLD;
    if (a > k) return p;
    why = BETWEEN;
    Position r = next;
    ox = (LD)prev.x + ((LD)next.x - prev.x) * a / k; oy = (LD)prev.y + ((LD)next.y - prev.y) * a / k;
    r.ts = now;
    return r;
  }
};
// next position of a walk: standing, walking, jumping, jittering
struct Walk {
  double x, y, vx = 0, vy = 0; int mode = 0, left = 0;
  void step(G& g, double dt, double w, double h) {
    dt = std::min(dt, 60.0);   // nobody walks on through a pause of days
    if (left-- <= 0) { mode = g.weighted({3, 4, 2, 2}); left = g.small(12); double a = g.real(0, 6.28), v = g.pick({1.0, 1.4, 0.3, 3.0, 3.9}); vx = v * std::cos(a); vy = v * std::sin(a); }
    if (mode == 1) { x += vx * dt; y += vy * dt; if (x < 0 || x > w) vx = -vx; if (y < 0 || y > h) vy = -vy; }
    if (mode == 2) { x += g.real(-1, 1) * g.pick({0.5, 3.0}); y += g.real(-1, 1) * g.pick({0.5, 3.0}); }
    if (mode == 3) { x = g.real(0, w); y = g.real(0, h); mode = g.boolean() ? 0 : 1; }
  }
};
}  // namespace pm
