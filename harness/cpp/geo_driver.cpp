// Drives quad keys, boxes, projections and elevation.
#include "vcommon.hpp"

#include "heightmap/FlatElevationProvider.hpp"
#include "heightmap/GridElevationProvider.hpp"
#include "heightmap/SrtmElevationProvider.hpp"
#include "utils/GeoUtils.hpp"

#include <thread>

using namespace utymap;
using namespace utymap::utils;
using namespace vc;

static const double W = 67108864;

static GeoCoordinate at(double x, double y) {
  return GeoCoordinate(std::atan(std::sinh(M_PI * (1 - 2 * y / W))) * 180 / M_PI, x / W * 360 - 180);
}
static long long rnd(double v, double &err) {
  double r = std::round(v);
  err = std::max(err, std::fabs(v - r));
  return (long long) r;
}
static std::vector<long long> plane(const BoundingBox &b, double &err) {
  auto px = [](double lon) { return (lon + 180) / 360 * W; };
  auto py = [](double lat) { return (1 - std::asinh(std::tan(lat * M_PI / 180)) / M_PI) / 2 * W; };
  return {rnd(px(b.minPoint.longitude), err), rnd(py(b.maxPoint.latitude), err), rnd(px(b.maxPoint.longitude), err), rnd(py(b.minPoint.latitude), err)};
}
/// great circle in decimetres
static double circle(const GeoCoordinate &p, const GeoCoordinate &q) {
  auto vec = [](const GeoCoordinate &c) {
    double a = c.latitude * M_PI / 180, o = c.longitude * M_PI / 180;
    return std::vector<double>{std::cos(a) * std::cos(o), std::cos(a) * std::sin(o), std::sin(a)};
  };
  auto a = vec(p), b = vec(q);
  double x = a[1] * b[2] - a[2] * b[1], y = a[2] * b[0] - a[0] * b[2], z = a[0] * b[1] - a[1] * b[0];
  return std::atan2(std::sqrt(x * x + y * y + z * z), a[0] * b[0] + a[1] * b[1] + a[2] * b[2]) * 63710088;
}
static GeoCoordinate micro(const vj::Value &v) { return GeoCoordinate(v[0].n * 1e-6, v[1].n * 1e-6); }
static BoundingBox box(const vj::Value &v) { return BoundingBox(GeoCoordinate(v[0].n, v[1].n), GeoCoordinate(v[2].n, v[3].n)); }
static std::vector<long long> nums(const BoundingBox &b) {
  return {(long long) b.minPoint.latitude, (long long) b.minPoint.longitude, (long long) b.maxPoint.latitude, (long long) b.maxPoint.longitude};
}

static void handle(const vj::Value &v, vj::Out &o) {
  const std::string &ev = v["ev"].s;
  if (ev == "q.key") {
    auto q = GeoUtils::GeoCoordinateToQuadKey(at(v["p"][0].n, v["p"][1].n), v["lod"].i());
    o.is("tile", {q.tileX, q.tileY});
  } else if (ev == "q.box") {
    double err = 0;
    o.is("box", plane(GeoUtils::quadKeyToBoundingBox(QuadKey(v["lod"].i(), v["tile"][0].i(), v["tile"][1].i())), err));
    o.b("exact", err < 1e-3);
  } else if (ev == "q.str") {
    std::vector<long long> d;
    for (char c : GeoUtils::quadKeyToString(QuadKey(v["lod"].i(), v["tile"][0].i(), v["tile"][1].i()))) d.push_back(c - '0');
    o.is("digits", d);
  } else if (ev == "q.range") {
    const auto &b = v["box"];
    GeoCoordinate nw = at(b[0].n, b[1].n), se = at(b[2].n, b[3].n);
    std::string out = "[";
    bool same = true;
    GeoUtils::visitTileRange(BoundingBox(GeoCoordinate(se.latitude, nw.longitude), GeoCoordinate(nw.latitude, se.longitude)), v["lod"].i(),
        [&](const QuadKey &q, const BoundingBox &x) {
      double err = 0;
      out += (out.size() > 1 ? ",[" : "[") + std::to_string(q.tileX) + "," + std::to_string(q.tileY) + "]";
      long long s = (long long) W >> q.levelOfDetail;
      auto p = plane(x, err);
      same = same && err < 1e-3 && q.levelOfDetail == v["lod"].i() && p[0] == q.tileX * s && p[1] == q.tileY * s && p[2] == p[0] + s && p[3] == p[1] + s;
    });
    o.raw("out", out + "]").b("exact", same);
  } else if (ev == "q.box.ops") {
    BoundingBox a = box(v["a"]), b = box(v["b"]);
    GeoCoordinate p(v["p"][0].n, v["p"][1].n);
    o.b("meets", a.intersects(b)).b("inside", a.contains(p)).b("within", a.contains(b)).b("valid", a.isValid());
    o.is("middle2", {(long long) (a.center().latitude * 2), (long long) (a.center().longitude * 2)});
    BoundingBox j = a, g = a;
    if (v.getb("extend", false)) j += b; else j.expand(b);
    if (v.getb("extend", false)) g.expand(p); else { std::vector<GeoCoordinate> ps(2, p); g.expand(ps.begin(), ps.end()); }
    o.is("joined", nums(j)).is("grown", nums(g));
  } else if (ev == "g.dist") {
    GeoCoordinate a = micro(v["a"]), b = micro(v["b"]);
    o.i("dist", std::llround(GeoUtils::distance(a, b) * 10)).i("back", std::llround(GeoUtils::distance(b, a) * 10)).i("circle", std::llround(circle(a, b)));
  } else if (ev == "g.move") {
    GeoCoordinate a = micro(v["a"]);
    auto g = GeoUtils::worldToGeo(a, v["x"].n, v["y"].n);
    o.i("east", std::llround(circle(a, GeoCoordinate(a.latitude, g.longitude)))).i("north", std::llround(circle(a, GeoCoordinate(g.latitude, a.longitude))));
    auto sign = [](double d) { return std::round(d * 1e9) > 0 ? 1 : std::round(d * 1e9) < 0 ? -1 : 0; };
    o.i("eastward", sign(g.longitude - a.longitude)).i("northward", sign(g.latitude - a.latitude));
  } else throw std::runtime_error("unknown operation " + ev);
}

int main() { return vj::loop(handle); }
