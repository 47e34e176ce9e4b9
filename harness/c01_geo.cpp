// C01: geographic <-> local conversion against an independent long-double model, plus round trips.
#include "pbt.h"
#include <navigine/navigation-core/point.h>
using namespace navigine::navigation_core;
using pbt::G;

static long double wrap(long double lon) { while (lon > 180) lon -= 360; while (lon <= -180) lon += 360; return lon; }
static long double circDiff(long double a, long double b) { return std::fabs(wrap(a - b)) ; }
static const long double PI = 3.14159265358979323846264338327950288L;

static GeoPoint genBind(G& g) {
  double lat = g.weighted({3, 1, 1}) == 0 ? g.real(-85, 85) : g.pick({0.0, 85.0, -85.0, 60.0, -33.5, 55.7, 1e-9});
  double lon;
  switch (g.weighted({3, 3, 2})) {
    case 0: lon = g.real(-180, 180); break;
    case 1: lon = g.pick({180.0, -180.0, 179.9999, -179.9999, 179.99, -179.99, 0.0, -0.001, 0.001}); break;
    default: lon = g.boolean() ? 180.0 - g.real(0, 0.05) : -180.0 + g.real(0, 0.05);
  }
  if (lon <= -180) lon = g.boolean() ? -180 : 180;
  return GeoPoint(lat, lon);
}

static void forward(G& g) {
  GeoPoint b = genBind(g);
  long double kx = 40075160.0L * cosl((long double)b.latitude * PI / 180) / 360, ky = 40008000.0L / 360;
  double ex = g.real(-5000, 5000), ey = g.real(-5000, 5000);   // metres east / north
  if (g.chance(1, 4)) ex = 0;
  if (g.chance(1, 4)) ey = 0;
  GeoPoint p((double)(b.latitude + ey / ky), (double)wrap(b.longitude + ex / kx));
  if (g.chance(1, 6)) p = b;
  // exact expected offsets of the (rounded) coordinates actually passed
  long double x = wrap((long double)p.longitude - b.longitude) * kx, y = ((long double)p.latitude - b.latitude) * ky;
  g.nontrivial(std::fabs(x) > 1e-3 && std::fabs(y) > 1e-3);
  g.label("straddles meridian", std::fabs(p.longitude - b.longitude) > 180);
  g.label("southern", b.latitude < 0);
  NOTE(g, "bind=(" << b.latitude << "," << b.longitude << ") point=(" << p.latitude << "," << p.longitude << ") expected local=(" << (double)x << "," << (double)y << ")");
  XYPoint r = gpsToLocal(p, b);
  REQUIRE("forward", std::fabs(r.x - x) < 1e-4 && std::fabs(r.y - y) < 1e-4, "local (" << r.x << "," << r.y << ") expected (" << (double)x << "," << (double)y << ")");
  GeoPoint q = localToGps(r, b);
  REQUIRE("roundtrip-geo", std::fabs(q.latitude - p.latitude) < 1e-9 && circDiff(q.longitude, p.longitude) < 1e-9,
          "round trip (" << q.latitude << "," << q.longitude << ") expected (" << p.latitude << "," << p.longitude << ")");
  REQUIRE("longitude-range", q.longitude > -180 && q.longitude <= 180, "longitude " << q.longitude << " outside (-180,180]");
}

static void backward(G& g) {
  GeoPoint b = genBind(g);
  long double kx = 40075160.0L * cosl((long double)b.latitude * PI / 180) / 360, ky = 40008000.0L / 360;
  XYPoint p(g.real(-5000, 5000), g.real(-5000, 5000));
  if (g.chance(1, 3)) p.x = 0;
  if (g.chance(1, 5)) p.y = 0;
  if (g.chance(1, 5)) p.x = (double)((180 - std::fabs(b.longitude)) * kx);   // lands on the meridian itself
  if (std::fabs(p.x) > 20000) p.x = 0;
  g.nontrivial(p.x != 0 && p.y != 0);
  long double lat = b.latitude + p.y / ky, lon = wrap(b.longitude + p.x / kx);
  NOTE(g, "bind=(" << b.latitude << "," << b.longitude << ") local=(" << p.x << "," << p.y << ")");
  GeoPoint q = localToGps(p, b);
  REQUIRE("longitude-range", q.longitude > -180 && q.longitude <= 180, "longitude " << q.longitude << " outside (-180,180]");
  REQUIRE("backward", std::fabs(q.latitude - lat) < 1e-9 && circDiff(q.longitude, lon) < 1e-9,
          "geo (" << q.latitude << "," << q.longitude << ") expected (" << (double)lat << "," << (double)lon << ")");
  XYPoint r = gpsToLocal(q, b);
  REQUIRE("roundtrip-local", std::fabs(r.x - p.x) < 1e-4 && std::fabs(r.y - p.y) < 1e-4, "round trip (" << r.x << "," << r.y << ") expected (" << p.x << "," << p.y << ")");
}

static std::vector<pbt::Sub> subs() { return {{"forward", forward, 400000, 6000000}, {"backward", backward, 400000, 6000000}}; }
PBT_MAIN(subs)
