// Generated maps: a plain description (in local metres of each level) and its GeoLevel, built with an independent projection.
#pragma once
#include "pbt.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <string>
#include <vector>
#include <navigine/navigation-core/barriers_geometry_builder.h>
#include <navigine/navigation-core/geolevel.h>
#include <navigine/navigation-core/level_collector.h>

namespace mg {
using namespace navigine::navigation_core;
using pbt::G;
using XY = std::pair<double, double>;
using PRing = std::vector<XY>;
struct PolySpec { PRing outer; std::vector<PRing> inners; };
struct TxSpec { std::string id; double x, y, alt; double A, B, power; TransmitterType type; };
struct RpSpec { std::string id; double x, y; std::map<std::string, SignalStatistics> fp; };
struct LevelSpec {
  std::string id;
  double lat0, lon0, altitude = 0;
  std::vector<PolySpec> area;
  std::vector<TxSpec> txs;
  std::vector<RpSpec> rps;
  std::vector<XY> vertices;
  std::vector<std::pair<int, int>> edges;
  double W = 0, H = 0;
};
static const double PI_ = 3.14159265358979323846;

inline void toGeo(double lat0, double lon0, double x, double y, double& lat, double& lon) {
  lat = lat0 + y * 360.0 / 40008000.0;
  lon = lon0 + x * 360.0 / (40075160.0 * std::cos(lat0 * PI_ / 180.0));
}
inline void toLocal(double lat0, double lon0, double lat, double lon, double& x, double& y) {
  x = (lon - lon0) * (40075160.0 * std::cos(lat0 * PI_ / 180.0)) / 360.0;
  y = (lat - lat0) * 40008000.0 / 360.0;
}
inline Point geoPt(const LevelSpec& l, const XY& p) { double a, b; toGeo(l.lat0, l.lon0, p.first, p.second, a, b); return Point(a, b); }

inline Polygon geoPolygon(const LevelSpec& l, const PolySpec& p) {
  Polygon r;
  for (auto& q : p.outer) r.outer().push_back(geoPt(l, q));
  for (auto& in : p.inners) { r.inners().push_back({}); for (auto& q : in) r.inners().back().push_back(geoPt(l, q)); }
  return r;
}
inline GeoLevel toGeoLevel(const LevelSpec& l) {
  GeoLevel g;
  g.id = LevelId(l.id);
  g.altitude = l.altitude;
  for (auto& t : l.txs) {
    double a, b; toGeo(l.lat0, l.lon0, t.x, t.y, a, b);
    g.transmitters.emplace_back(TransmitterId(t.id), GeoPoint3D(a, b, t.alt), PathlossModel{t.A, t.B, t.power}, t.type);
  }
  for (auto& r : l.rps) {
    double a, b; toGeo(l.lat0, l.lon0, r.x, r.y, a, b);
    std::map<TransmitterId, SignalStatistics> fp;
    for (auto& kv : r.fp) fp.insert({TransmitterId(kv.first), kv.second});
    g.referencePoints.emplace_back(ReferencePointId(r.id), GeoPoint(a, b), fp);
  }
  std::list<Polygon> polys;
  for (auto& p : l.area) polys.push_back(geoPolygon(l, p));
  g.geometry = getGeometry(polys);
  for (auto& v : l.vertices) { double a, b; toGeo(l.lat0, l.lon0, v.first, v.second, a, b); g.graph.addVertex(GeoPoint(a, b)); }
  for (auto& e : l.edges) g.graph.addEdge(e.first, e.second);
  return g;
}
inline PRing rect(double x0, double y0, double x1, double y1) { return {{x0, y0}, {x0, y1}, {x1, y1}, {x1, y0}}; }
inline void orientRing(G& g, PRing& r) {   // random direction, start vertex and explicit closing
  if (g.boolean()) std::reverse(r.begin(), r.end());
  std::rotate(r.begin(), r.begin() + g.draw(r.size() - 1), r.end());
  if (g.boolean()) r.push_back(r.front());
}
// star-shaped polygon around (cx,cy) with radii in [r0,r1]
inline PRing star(G& g, double cx, double cy, double r0, double r1, int n) {
  PRing r;
  for (int i = 0; i < n; i++) {
    double a = 2 * PI_ * (i + g.real(0.05, 0.95)) / n, d = g.real(r0, r1);
    r.push_back({cx + d * std::cos(a), cy + d * std::sin(a)});
  }
  return r;
}
// identifiers that differ only where a careless comparison does not look
struct Namer {
  int style;
  explicit Namer(G& g) : style((int)g.weighted({8, 1, 1, 1, 1, 1})) {}
  std::string operator()(const std::string& kind, int i, int k = -1) const {
    std::string plain = kind + std::to_string(i) + (k < 0 ? "" : "_" + std::to_string(k));
    int n = i * 300 + k + 1;   // unique within a kind
    switch (style) {
      case 1: return "(7890,654,F7826DA6-4FA2-4E98-8024-BC5B71E0893E)/" + kind + "/00000000000000/" + plain;   // long, alike at the start
      case 2: return plain + "/(7890,654,F7826DA6-4FA2-4E98-8024-BC5B71E0893E)";                                 // long, alike at the end
      case 3: { std::string r; for (int b = 11; b >= 0; b--) r += (char)((n >> b & 1 ? 'A' : 'a') + b); return kind + r; }   // differ in case only
      case 4: return std::string(n / 20, '0') + kind + std::string(1, ' ') + std::string(n % 20, ' ') + "7";        // differ in leading zeros and inner blanks
      case 5: { std::string r = kind; for (int v = n; v; v /= 3) r += v % 3 == 0 ? "e" : v % 3 == 1 ? "\xc3\xa8" : "\xc3\xa9"; return r; }   // non-ASCII letters
      default: return plain;
    }
  }
};
}  // namespace mg
