// C02: map building keeps all content (independent projection), lookups by id.
#include "mapgen.h"
using namespace mg;

static std::string ids(G& g, const char* p, int k) { static const char* alt[] = {"", "x", "-", " ", "AA:bb"}; return std::string(p) + alt[g.draw(4)] + std::to_string(k); }

static LevelSpec genLevel(G& g, int idx, const std::vector<LevelSpec>& prev) {
  LevelSpec l;
  l.id = ids(g, "L", idx);
  if (!prev.empty() && g.chance(1, 2)) { l.lat0 = prev[0].lat0; l.lon0 = prev[0].lon0; }
  else { l.lat0 = g.real(-80, 80); l.lon0 = g.real(-179, 179); }
  l.altitude = g.pick({0.0, 3.5, -6.25, 100.0});
  int np = 1 + (int)g.draw(2);
  for (int i = 0; i < np; i++) {
    PolySpec p;
    double x0 = 200.0 * i + g.real(-20, 20), y0 = g.real(-20, 20);
    if (g.boolean()) {
      double w = g.real(20, 90), h = g.real(20, 90);
      p.outer = rect(x0, y0, x0 + w, y0 + h);
      int nh = (int)g.draw(2);
      for (int k = 0; k < nh; k++) { double hx = x0 + w * (0.1 + 0.45 * k); p.inners.push_back(rect(hx, y0 + h * g.real(0.1, 0.4), hx + w * g.real(0.05, 0.3), y0 + h * g.real(0.5, 0.9))); }
    } else {
      p.outer = star(g, x0 + 50, y0 + 50, 20, 45, g.chance(1, 8) ? 40 + (int)g.draw(80) : 3 + (int)g.draw(5));
      if (p.outer.size() > 4 && g.boolean()) p.inners.push_back(star(g, x0 + 50, y0 + 50, 1, 4, g.chance(1, 8) ? 40 + (int)g.draw(80) : 4));
    }
    orientRing(g, p.outer);
    for (auto& r : p.inners) orientRing(g, r);
    l.area.push_back(p);
  }
  int nt = g.sized(8, 60);
  std::set<std::string> used;
  for (int i = 0; i < nt; i++) {
    TxSpec t;
    bool share = !prev.empty() && g.chance(1, 3);
    if (share && !prev.back().txs.empty()) t.id = prev[g.draw(prev.size() - 1)].txs.empty() ? "T" + std::to_string(idx) + "_" + std::to_string(i) : "", t.id = t.id.empty() ? prev.back().txs[g.draw(prev.back().txs.size() - 1)].id : t.id;
    else t.id = ids(g, "T", idx * 100 + i);
    if (!used.insert(t.id).second) continue;
    t.x = g.real(-50, 400); t.y = g.real(-50, 100); t.alt = g.pick({0.0, 1.5, -2.0, 2.75});
    t.A = g.real(-90, -30); t.B = g.real(1, 40); t.power = g.real(-20, 20);
    t.type = g.pick({TransmitterType::WIFI, TransmitterType::BEACON, TransmitterType::BLUETOOTH, TransmitterType::UNKNOWN, TransmitterType::EDDYSTONE, TransmitterType::LOCATOR});
    l.txs.push_back(t);
  }
  int nr = g.sized(8, 60);
  for (int i = 0; i < nr; i++) {
    RpSpec r;
    r.id = ids(g, "R", idx * 100 + i);
    r.x = g.real(-10, 300); r.y = g.real(-10, 90);
    int nf = g.sized(4, 40);
    for (int k = 0; k < nf; k++) r.fp["F" + std::to_string(g.draw(6))] = SignalStatistics{g.pick({TransmitterType::WIFI, TransmitterType::BEACON}), g.real(-95, -30), g.real(0, 20), (size_t)g.draw(100)};
    l.rps.push_back(r);
  }
  int nv = g.sized(8, 80);
  for (int i = 0; i < nv; i++) l.vertices.push_back({g.real(0, 300), g.real(0, 90)});
  if (nv) { int ne = g.sized(10, 150); for (int i = 0; i < ne; i++) l.edges.push_back({(int)g.draw(nv - 1), (int)g.draw(nv - 1)}); }
  return l;
}

static bool near(double a, double b) { return std::fabs(a - b) < 1e-5; }
static PRing open(PRing r) { if (r.size() > 1 && near(r.front().first, r.back().first) && near(r.front().second, r.back().second)) r.pop_back(); return r; }
// same cyclic sequence up to direction
static bool sameRing(const PRing& a0, const PRing& b0) {
  PRing a = open(a0), b = open(b0);
  if (a.size() != b.size()) return false;
  for (int rev = 0; rev < 2; rev++) {
    for (size_t s = 0; s < b.size(); s++) {
      bool ok = true;
      for (size_t i = 0; i < a.size() && ok; i++) ok = near(a[i].first, b[(i + s) % b.size()].first) && near(a[i].second, b[(i + s) % b.size()].second);
      if (ok) return true;
    }
    std::reverse(b.begin(), b.end());
  }
  return false;
}
template <class R> static PRing ringOf(const R& r) { PRing o; for (auto& p : r) o.push_back({p.x(), p.y()}); return o; }

// the level's box is the envelope of its area, or stated: any rectangle, by any two opposite corners
struct Stated { bool own = false; double x0, y0, x1, y1; int corners = 0; };
static GeoLevel withBox(const LevelSpec& l, const Stated& b) {
  GeoLevel gl = toGeoLevel(l);
  if (!b.own) return gl;
  double a0, o0, a1, o1; toGeo(l.lat0, l.lon0, b.x0, b.y0, a0, o0); toGeo(l.lat0, l.lon0, b.x1, b.y1, a1, o1);
  if (b.corners & 1) std::swap(a0, a1);
  if (b.corners & 2) std::swap(o0, o1);
  gl.geometry = LevelGeometry(gl.geometry.allowedArea(), Box(Point(a0, o0), Point(a1, o1)));
  return gl;
}

static void build(G& g) {
  int n = 1 + g.sized(4, 24);
  std::vector<LevelSpec> specs;
  for (int i = 0; i < n; i++) specs.push_back(genLevel(g, i, specs));
  auto coll = createLevelCollector();
  std::set<std::string> allTx;
  std::vector<Stated> boxes;
  for (auto& l : specs) {
    Stated bx;
    if (g.chance(1, 4)) { bx.own = true; bx.x0 = g.real(-60, 0); bx.y0 = g.real(-60, 0); bx.x1 = g.real(10, 300); bx.y1 = g.real(10, 120); bx.corners = (int)g.draw(3); }
    boxes.push_back(bx);
    REQUIRE("lookup-level", !coll->hasLevel(LevelId(l.id)), "level " << l.id << " known before it was added");
    coll->addGeoLevel(withBox(l, boxes.back()));
    for (auto& t : l.txs) allTx.insert(t.id);
  }
  size_t elems = 0;
  for (auto& l : specs) elems += l.txs.size() + l.rps.size() + l.vertices.size();
  g.nontrivial(n >= 2 && elems >= 4);
  REQUIRE("level-count", coll->levels().size() == specs.size(), coll->levels().size() << " levels instead of " << specs.size());
  REQUIRE("lookup-level", !coll->hasLevel(LevelId("nope")) && !coll->hasLevel(LevelId("")), "unknown level found");
  for (int li = 0; li < n; li++) {
    const LevelSpec& l = specs[li];
    NOTE(g, "level '" << l.id << "' at (" << l.lat0 << "," << l.lon0 << ") alt " << l.altitude << ": " << l.area.size() << " polygons, " << l.txs.size() << " tx, " << l.rps.size() << " rp, " << l.vertices.size() << " vertices, " << l.edges.size() << " edges");
    REQUIRE("lookup-level", coll->hasLevel(LevelId(l.id)), "level " << l.id << " not found");
    const Level& L = coll->level(LevelId(l.id));
    REQUIRE("lookup-level", L.id().value == l.id && coll->levels()[li].id().value == l.id, "looked up '" << l.id << "' got '" << L.id().value << "'");
    double x0 = 1e9, y0 = 1e9, x1 = -1e9, y1 = -1e9;
    for (auto& p : l.area) for (auto& q : p.outer) { x0 = std::min(x0, q.first); x1 = std::max(x1, q.first); y0 = std::min(y0, q.second); y1 = std::max(y1, q.second); }
    if (boxes[li].own) { x0 = boxes[li].x0; y0 = boxes[li].y0; x1 = boxes[li].x1; y1 = boxes[li].y1; NOTE(g, "stated box (" << x0 << "," << y0 << ")-(" << x1 << "," << y1 << "), corners " << boxes[li].corners); }
    double blat, blon; toGeo(l.lat0, l.lon0, x0, y0, blat, blon);
    REQUIRE("binding", std::fabs(L.bindingPoint().latitude - blat) < 1e-9 && std::fabs(L.bindingPoint().longitude - blon) < 1e-9,
            "binding (" << L.bindingPoint().latitude << "," << L.bindingPoint().longitude << ") expected (" << blat << "," << blon << ")");
    auto loc = [&](double x, double y) { double la, lo, X, Y; toGeo(l.lat0, l.lon0, x, y, la, lo); toLocal(blat, blon, la, lo, X, Y); return XY(X, Y); };
    XY c1 = loc(x1, y1);
    const Box& bb = L.geometry().boundingBox();
    REQUIRE("bounding-box", near(bb.min_corner().x(), 0) && near(bb.min_corner().y(), 0) && near(bb.max_corner().x(), c1.first) && near(bb.max_corner().y(), c1.second),
            "bounding box (" << bb.min_corner().x() << "," << bb.min_corner().y() << ")-(" << bb.max_corner().x() << "," << bb.max_corner().y() << ") expected (0,0)-(" << c1.first << "," << c1.second << ")");
    std::set<std::string> own;
    for (auto& t : l.txs) {
      own.insert(t.id);
      REQUIRE("transmitter", L.containsTransmitter(TransmitterId(t.id)), "transmitter " << t.id << " lost on " << l.id);
      auto& T = L.transmitter(TransmitterId(t.id));
      XY e = loc(t.x, t.y);
      REQUIRE("transmitter", T.id.value == t.id && near(T.point.x, e.first) && near(T.point.y, e.second) && std::fabs(T.point.z - (l.altitude + t.alt)) < 1e-9 && T.type == t.type &&
              T.pathlossModel.A == t.A && T.pathlossModel.B == t.B && T.pathlossModel.power == t.power,
              "transmitter " << t.id << " at (" << T.point.x << "," << T.point.y << "," << T.point.z << ") A=" << T.pathlossModel.A << " B=" << T.pathlossModel.B << " power=" << T.pathlossModel.power << " type=" << (int)T.type << "; expected (" << e.first << "," << e.second << "," << l.altitude + t.alt << ") A=" << t.A << " B=" << t.B << " power=" << t.power << " type=" << (int)t.type);
    }
    for (auto& id : allTx) if (!own.count(id)) REQUIRE("transmitter-foreign", !L.containsTransmitter(TransmitterId(id)), "transmitter " << id << " of another level appears on " << l.id);
    REQUIRE("transmitter-foreign", !L.containsTransmitter(TransmitterId("nope")), "unknown transmitter found");
    // reading filter
    RadioMeasurementsData ms; size_t exp = 0;
    for (auto& id : allTx) { RadioMeasurementData m; m.type = RadioMeasurementData::Type::BEACON; m.id = TransmitterId(id); m.rssi = -50; ms.push_back(m); exp += own.count(id); }
    RadioMeasurementsData flt = getLevelRadioMeasurements(L, ms);
    std::set<std::string> got; for (auto& m : flt) got.insert(m.id.value);
    REQUIRE("level-readings", got == own && flt.size() == exp, "readings of the level: " << flt.size() << " expected " << exp);
    const Radiomap& R = L.radiomap();
    REQUIRE("reference-points", R.referencePoints().size() == l.rps.size(), R.referencePoints().size() << " reference points expected " << l.rps.size());
    for (auto& r : l.rps) {
      REQUIRE("reference-points", R.hasReferencePoint(ReferencePointId(r.id)), "reference point " << r.id << " lost");
      auto rp = R.getReferencePoint(ReferencePointId(r.id));
      XY e = loc(r.x, r.y);
      bool ok = rp.id.value == r.id && near(rp.point.x, e.first) && near(rp.point.y, e.second) && rp.fingerprints.size() == r.fp.size();
      for (auto& kv : r.fp) { auto it = rp.fingerprints.find(TransmitterId(kv.first)); ok = ok && it != rp.fingerprints.end() && it->second.mean == kv.second.mean && it->second.variance == kv.second.variance && it->second.nMeasurements == kv.second.nMeasurements && it->second.type == kv.second.type; }
      REQUIRE("reference-points", ok, "reference point " << r.id << " at (" << rp.point.x << "," << rp.point.y << ") with " << rp.fingerprints.size() << " fingerprints; expected (" << e.first << "," << e.second << ") with " << r.fp.size());
      size_t cnt = 0; for (auto& q : R.referencePoints()) cnt += q.id.value == r.id;
      REQUIRE("reference-points", cnt == 1, "reference point " << r.id << " present " << cnt << " times");
    }
    REQUIRE("reference-points", !R.hasReferencePoint(ReferencePointId("nope")), "unknown reference point found");
    const auto& Gr = L.graph();
    REQUIRE("graph", (size_t)std::distance(Gr.vertexBegin(), Gr.vertexEnd()) == l.vertices.size(), "graph vertex count");
    for (size_t i = 0; i < l.vertices.size(); i++) {
      XY e = loc(l.vertices[i].first, l.vertices[i].second);
      auto v = Gr.getVertex((int)i);
      REQUIRE("graph", v.id == (int)i && near(v.point.x, e.first) && near(v.point.y, e.second), "graph vertex " << i << " at (" << v.point.x << "," << v.point.y << ") expected (" << e.first << "," << e.second << ")");
    }
    std::set<std::pair<int, int>> ee, ge(Gr.edgesBegin(), Gr.edgesEnd());
    for (auto& e : l.edges) ee.insert({std::min(e.first, e.second), std::max(e.first, e.second)});
    REQUIRE("graph", ee == ge, "graph edges differ: " << ge.size() << " vs expected " << ee.size());
    const Multipolygon& A = L.geometry().allowedArea();
    REQUIRE("polygons", A.size() == l.area.size(), A.size() << " polygons expected " << l.area.size());
    std::vector<bool> taken(A.size(), false);
    for (auto& p : l.area) {
      PRing eo; for (auto& q : p.outer) eo.push_back(loc(q.first, q.second));
      bool found = false;
      for (size_t k = 0; k < A.size() && !found; k++) {
        if (taken[k] || !sameRing(eo, ringOf(A[k].outer())) || A[k].inners().size() != p.inners.size()) continue;
        bool all = true;
        std::vector<bool> t2(p.inners.size(), false);
        for (auto& in : p.inners) {
          PRing ei; for (auto& q : in) ei.push_back(loc(q.first, q.second));
          bool f = false;
          for (size_t m = 0; m < p.inners.size() && !f; m++) if (!t2[m] && sameRing(ei, ringOf(A[k].inners()[m]))) f = t2[m] = true;
          all = all && f;
        }
        if (all) { found = true; taken[k] = true; REQUIRE("polygons", boost::geometry::area(A[k]) > 0, "polygon of level " << l.id << " is not correctly oriented"); }
      }
      REQUIRE("polygons", found, "walkable polygon lost or changed on level " << l.id);
    }
  }
  for (auto& id : allTx) {
    std::string first;
    for (auto& l : specs) { for (auto& t : l.txs) if (t.id == id) { first = l.id; break; } if (!first.empty()) break; }
    auto f = coll->findLevelByTransmitterId(TransmitterId(id));
    REQUIRE("transmitter-lookup", f.is_initialized() && f.get().value == first, "transmitter " << id << " found on " << (f ? f.get().value : "<none>") << " expected " << first);
  }
  REQUIRE("transmitter-lookup", !coll->findLevelByTransmitterId(TransmitterId("nope")).is_initialized(), "unknown transmitter found");
}
static std::vector<pbt::Sub> subs() { return {{"build", build, 24000, 400000}}; }
PBT_MAIN(subs)
