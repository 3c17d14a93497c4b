// Drives the builders which make meshes, and looks at what they make.
#include "vcommon.hpp"

#include <array>
#include <functional>
#include <numeric>
#include <set>

#include "builders/BuilderContext.hpp"
#include "builders/MeshPool.hpp"
#include "builders/buildings/BuildingBuilder.hpp"
#include "builders/misc/BarrierBuilder.hpp"
#include "builders/misc/LampBuilder.hpp"
#include "builders/poi/TreeBuilder.hpp"
#include "builders/terrain/TerraBuilder.hpp"
#include "heightmap/ElevationProvider.hpp"
#include "utils/GradientUtils.hpp"

using namespace utymap;
using namespace utymap::builders;
using namespace utymap::entities;
using namespace utymap::index;
using namespace utymap::mapcss;
using namespace utymap::math;
using namespace vc;

static int serial = 0;
static std::string dir;
static std::unique_ptr<StringTable> table;
static std::unique_ptr<StyleProvider> style;
static MeshPool pool;

/// elevation is a plane over the grid
class Plane : public heightmap::ElevationProvider {
 public:
  Grid grid;
  double a = 0, b = 0, c = 0;
  double getElevation(const QuadKey &, const GeoCoordinate &p) const override {
    double u, v;
    grid.toGrid(p, u, v);
    return c + a * u + b * v;
  }
  double getElevation(const QuadKey &q, double lat, double lon) const override { return getElevation(q, GeoCoordinate(lat, lon)); }
};

struct Copy {
  std::string name;
  std::vector<double> vertices, uvs;
  std::vector<int> triangles, colors, uvMap;
};

static std::vector<Copy> build(const vj::Value &v, const Grid &g, const Plane &ele) {
  std::vector<Copy> out;
  CancellationToken token;
  BuilderContext context(QuadKey(g.lod, g.x, g.y), *style, *table, pool, ele, [&](const Mesh &m) {
    Copy c;
    c.name = m.name; c.vertices = m.vertices; c.uvs = m.uvs; c.triangles = m.triangles; c.colors = m.colors; c.uvMap = m.uvMap;
    out.push_back(c);
  }, nullptr, token);
  const std::string &n = v["builder"].s;
  std::unique_ptr<ElementBuilder> b;
  if (n == "terrain") b.reset(new TerraBuilder(context));
  else if (n == "building") b.reset(new BuildingBuilder(context));
  else if (n == "barrier") b.reset(new BarrierBuilder(context));
  else if (n == "lamp") b.reset(new LampBuilder(context));
  else if (n == "tree") b.reset(new TreeBuilder(context));
  else throw std::runtime_error("no such builder");
  b->prepare();
  for (const auto &e : v["elements"].a) {
    auto x = element(e, g, *table);
    x->accept(*b);
  }
  b->complete();
  return out;
}

static int textureOf(const Copy &m, int vertex) {
  for (size_t i = 0; i + 7 < m.uvMap.size(); i += 8)
    if (vertex * 2 < m.uvMap[i]) return m.uvMap[i + 1];
  return -1;
}

static std::string num(long long n) { return std::to_string(n); }

struct P { double u, v, h; };

/// hundredths of units and millimetres; what is far away is not told apart, TLC's numbers are short
static long long cu(double u) { return std::llround(std::min(2000.0, std::max(-2000.0, u)) * 100); }
static long long mm(double h) { return std::llround(std::min(2000.0, std::max(-2000.0, h)) * 1000); }

/// A mesh whose vertices at the same place are one. Lengths are units of the grid, heights metres.
struct Welded {
  std::vector<P> places;
  std::vector<int> of;                      // vertex -> place
  std::vector<std::array<int, 3>> triangles;// those which are not just a line
  std::vector<int> origin;                  // triangle -> its first corner in the mesh
  std::map<std::pair<int, int>, int> net;   // a < b: how often a triangle goes from a to b more than back
  static constexpr double Eps = 2e-3;

  Welded(const Copy &m, const std::function<P(const Copy &, int)> &at, size_t splitLimit) {
    std::map<std::array<long long, 3>, std::vector<int>> cells;
    for (size_t i = 0; i < m.vertices.size() / 3; ++i) {
      P p = at(m, (int) i);
      std::array<long long, 3> c = {(long long) std::floor(p.u / Eps), (long long) std::floor(p.v / Eps), (long long) std::floor(p.h / Eps)};
      int found = -1;
      for (int k = 0; k < 27 && found < 0; ++k) {
        auto it = cells.find({c[0] + k % 3 - 1, c[1] + k / 3 % 3 - 1, c[2] + k / 9 - 1});
        if (it == cells.end()) continue;
        for (int q : it->second)
          if (std::fabs(places[q].u - p.u) < Eps && std::fabs(places[q].v - p.v) < Eps && std::fabs(places[q].h - p.h) < Eps) { found = q; break; }
      }
      if (found < 0) { found = (int) places.size(); places.push_back(p); cells[c].push_back(found); }
      of.push_back(found);
    }
    for (size_t i = 0; i + 2 < m.triangles.size(); i += 3) {
      int a = of.at(m.triangles[i]), b = of.at(m.triangles[i + 1]), c = of.at(m.triangles[i + 2]);
      if (a == b || b == c || a == c) continue;
      triangles.push_back({a, b, c});
      origin.push_back(m.triangles[i]);
    }
    for (auto &t : triangles)
      for (int k = 0; k < 3; ++k) {
        int a = t[k], b = t[(k + 1) % 3];
        net[{std::min(a, b), std::max(a, b)}] += a < b ? 1 : -1;
      }
    clean();
    // what is left may fit when an edge is cut where the end of another one lies on it
    if (net.size() > splitLimit) return;
    std::vector<int> ends;
    for (auto &e : net) { ends.push_back(e.first.first); ends.push_back(e.first.second); }
    std::sort(ends.begin(), ends.end());
    ends.erase(std::unique(ends.begin(), ends.end()), ends.end());
    auto old = net;
    net.clear();
    for (auto &e : old) {
      P a = places[e.first.first], b = places[e.first.second];
      P d = {b.u - a.u, b.v - a.v, b.h - a.h};
      double l = d.u * d.u + d.v * d.v + d.h * d.h;
      std::vector<std::pair<double, int>> cuts = {{0, e.first.first}, {1, e.first.second}};
      for (int q : ends) {
        if (q == e.first.first || q == e.first.second) continue;
        P w = {places[q].u - a.u, places[q].v - a.v, places[q].h - a.h};
        double t = (w.u * d.u + w.v * d.v + w.h * d.h) / l;
        if (t <= 0 || t >= 1) continue;
        if (std::hypot(std::hypot(w.u - t * d.u, w.v - t * d.v), w.h - t * d.h) < 2 * Eps) cuts.push_back({t, q});
      }
      std::sort(cuts.begin(), cuts.end());
      for (size_t i = 0; i + 1 < cuts.size(); ++i) {
        int x = cuts[i].second, y = cuts[i + 1].second;
        net[{std::min(x, y), std::max(x, y)}] += x < y ? e.second : -e.second;
      }
    }
    clean();
  }
  void clean() { for (auto it = net.begin(); it != net.end();) it = it->second ? std::next(it) : net.erase(it); }

  /// edges with nothing on their other side, the way their triangle goes: [u, v, h, u, v, h, how often], 100ths of units and mm
  std::string rim(const std::function<bool(int)> &which, size_t limit = 400) const {
    std::string s = "[";
    size_t n = 0;
    for (auto &e : net) {
      if (!which(e.first.first) || ++n > limit) continue;
      P a = places[e.first.first], b = places[e.first.second];
      if (e.second < 0) std::swap(a, b);
      s += (s.size() > 1 ? ",[" : "[");
      for (long long d : {cu(a.u), cu(a.v), mm(a.h), cu(b.u), cu(b.v), mm(b.h)}) s += num(d) + ",";
      s += num(std::abs(e.second)) + "]";
    }
    return s + "]";
  }
  /// volume, positive if triangles face outwards; what is not closed is closed with a cap at its lowest height
  double volume(const std::function<bool(int)> &which) const {
    double lo = 1e300, v = 0;
    for (auto &t : triangles) if (which(t[0])) for (int k : t) lo = std::min(lo, places[k].h);
    for (auto &t : triangles) {
      if (!which(t[0])) continue;
      const P &a = places[t[0]], &b = places[t[1]], &c = places[t[2]];
      double cross = (b.u - a.u) * (c.v - a.v) - (b.v - a.v) * (c.u - a.u);
      v += cross / 2 * ((a.h + b.h + c.h) / 3 - lo);
    }
    return v;
  }
};

static void handle(const vj::Value &v, vj::Out &o) {
  const std::string &ev = v["ev"].s;
  if (ev == "sheet") {
    style.reset();
    table.reset();
    if (!dir.empty()) rmtree(dir);
    dir = "mesh" + std::to_string(++serial);
    mkdirs(dir);
    table.reset(new StringTable(dir));
    if (v.has("files"))
      for (auto &f : v["files"].a) { std::ofstream(dir + "/" + f[0].s) << f[1].s; }
    StyleSheet sheet = MapCssParser(dir + "/").parse(text(v["text"]));
    style.reset(new StyleProvider(sheet, *table));
    return;
  }
  if (ev == "restart") return;
  Grid g = Grid::from(v["grid"]);
  Plane ele;
  ele.grid = g;
  if (v.has("ele")) { ele.a = v["ele"][0].n / 1000; ele.b = v["ele"][1].n / 1000; ele.c = v["ele"][2].n / 1000; }
  auto meshes = build(v, g, ele);
  std::string f = "[";
  for (const auto &m : meshes) f += (f.size() > 1 ? "," : "") + formed(m);
  o.raw("formed", f + "]");

  std::map<int, int> palette;
  if (v.has("palette"))
    for (size_t i = 0; i < v["palette"].a.size(); ++i) {
      Color c = style->getGradient(v["palette"][i].s).evaluate(0.5);
      palette[(int) c] = (int) i + 1;
    }
  auto colour = [&](int c) { auto it = palette.find(c); return it == palette.end() ? 0 : it->second; };

  auto at = [&](const Copy &m, int i) {
    P p;
    g.toGrid(GeoCoordinate(m.vertices.at(3 * i + 1), m.vertices.at(3 * i)), p.u, p.v);
    p.h = m.vertices.at(3 * i + 2);
    return p;
  };

  if (ev == "formed") return;
  if (ev == "surface") {
    // the triangles over each sample, and their areas; walls have none
    std::vector<std::string> over(v["samples"].a.size(), "");
    double total = 0;
    long long down = 0;
    double tile = (double) g.k * g.k;
    std::map<int, double> largest;
    std::map<std::string, double> walls;
    for (const auto &m : meshes) {
      for (size_t i = 0; i + 2 < m.triangles.size(); i += 3) {
        int ia = m.triangles[i], ib = m.triangles[i + 1], ic = m.triangles[i + 2];
        P a = at(m, ia), b = at(m, ib), c = at(m, ic);
        double cross = (b.u - a.u) * (c.v - a.v) - (b.v - a.v) * (c.u - a.u);   // v grows to the south
        if (std::fabs(cross) / 2 < tile * 1e-9) {
          double lo = std::min(a.h, std::min(b.h, c.h)), hi = std::max(a.h, std::max(b.h, c.h));
          if (hi - lo > 1e-6)
            walls[vj::quote(m.name) + "," + num(colour(m.colors.at(ia))) + "," + num(textureOf(m, ia))] += std::max(std::hypot(a.u - b.u, a.v - b.v), std::max(std::hypot(b.u - c.u, b.v - c.v), std::hypot(c.u - a.u, c.v - a.v))) / 2;
          continue;
        }
        total += std::fabs(cross) / 2;
        if (cross < 0 && std::fabs(cross) / 2 > tile * 1e-7) ++down;
        double &l = largest[colour(m.colors.at(ia))];
        l = std::max(l, std::fabs(cross) / 2);
        for (size_t s = 0; s < over.size(); ++s) {
          double u = v["samples"][s][0].n, w = v["samples"][s][1].n;
          double x = ((b.u - u) * (c.v - w) - (b.v - w) * (c.u - u)) / cross;
          double y = ((c.u - u) * (a.v - w) - (c.v - w) * (a.u - u)) / cross;
          double z = 1 - x - y;
          if (x < -1e-6 || y < -1e-6 || z < -1e-6) continue;
          bool edge = x < 1e-6 || y < 1e-6 || z < 1e-6;
          int ca = colour(m.colors.at(ia)), cb = colour(m.colors.at(ib)), cc = colour(m.colors.at(ic));
          over[s] += (over[s].empty() ? "" : ",") + std::string("[") + vj::quote(m.name) + "," + num(ca == cb && cb == cc ? ca : -1) + "," +
                     num(std::llround((x * a.h + y * b.h + z * c.h) * 1000)) + "," + num(textureOf(m, ia)) + "," + (edge ? "1" : "0") + "]";
        }
      }
    }
    std::string s = "[";
    for (size_t i = 0; i < over.size(); ++i) s += (i ? ",[" : "[") + over[i] + "]";
    o.raw("over", s + "]").i("area", std::llround(total / tile * 1000000)).i("down", down);
    std::string l = "[", w = "[";
    for (auto &p : largest) l += (l.size() > 1 ? ",[" : "[") + num(p.first) + "," + num(std::llround(p.second / tile * 1000000)) + "]";
    for (auto &p : walls) w += (w.size() > 1 ? ",[" : "[") + p.first + "," + num(std::llround(p.second * 10)) + "]";
    o.raw("largest", l + "]").raw("walls", w + "]");
    // vertices on the borders of the tile, to the west, east, north and south: the other coordinate in thousandths, and the height
    std::vector<std::map<long long, long long>> border(4);
    for (const auto &m : meshes)
      for (size_t i = 0; i < m.vertices.size() / 3; ++i) {
        P p = at(m, (int) i);
        double d[4] = {p.u, p.u - g.k, p.v, p.v - g.k};
        for (int k = 0; k < 4; ++k)
          if (std::fabs(d[k]) < 0.02 * g.k / 512) border[k][std::llround((k < 2 ? p.v : p.u) * 100)] = std::llround(p.h * 1000);
      }
    std::string bs = "[";
    for (auto &b : border) {
      bs += bs.size() > 1 ? ",[" : "[";
      bool first = true;
      for (auto &p : b) { bs += std::string(first ? "[" : ",[") + num(p.first) + "," + num(p.second) + "]"; first = false; }
      bs += "]";
    }
    o.raw("border", bs + "]");
  } else if (ev == "solids") {
    std::string out = "[";
    for (const auto &m : meshes) {
      if (!m.triangles.empty() && *std::max_element(m.triangles.begin(), m.triangles.end()) * 3 + 2 >= (int) m.vertices.size()) continue;
      Welded w(m, at, 4000);
      auto all = [](int) { return true; };
      // parts which are not connected
      std::vector<int> root(w.places.size());
      std::iota(root.begin(), root.end(), 0);
      std::function<int(int)> find = [&](int i) { while (root[i] != i) i = root[i] = root[root[i]]; return i; };
      for (auto &t : w.triangles) { root[find(t[0])] = find(t[1]); root[find(t[1])] = find(t[2]); }
      std::map<int, std::vector<size_t>> parts;
      for (size_t i = 0; i < w.triangles.size(); ++i) parts[find(w.triangles[i][0])].push_back(i);
      out += (out.size() > 1 ? ",{" : "{") + std::string("\"name\":") + vj::quote(m.name) + ",\"triangles\":" + num(w.triangles.size());
      out += ",\"rim\":" + w.rim(all) + ",\"volume\":" + num(std::llround(std::min(2e9, std::max(-2e9, w.volume(all) * 10))));
      out += ",\"parts\":[";
      bool first = true;
      size_t count = 0;
      for (auto &p : parts) {
        if (++count > 600) break;
        double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300};
        std::map<std::pair<int, int>, long long> looks;
        std::set<std::pair<long long, long long>> foot;   // where it stands
        for (size_t i : p.second) {
          ++looks[{colour(m.colors.at(w.origin[i])), textureOf(m, w.origin[i])}];
          for (int k : w.triangles[i]) {
            double c[3] = {w.places[k].u, w.places[k].v, w.places[k].h};
            for (int j = 0; j < 3; ++j) { lo[j] = std::min(lo[j], c[j]); hi[j] = std::max(hi[j], c[j]); }
          }
        }
        if (v.has("corners"))
          for (size_t i : p.second) for (int k : w.triangles[i]) foot.insert({cu(w.places[k].u), cu(w.places[k].v)});
        auto mine = [&](int k) { return find(k) == p.first; };
        out += (first ? "{" : ",{") + std::string("\"box\":[");
        first = false;
        for (int j = 0; j < 3; ++j) out += (j ? "," : "") + num(j < 2 ? cu(lo[j]) : mm(lo[j])) + "," + num(j < 2 ? cu(hi[j]) : mm(hi[j]));
        out += "],\"n\":" + num(p.second.size()) + ",\"volume\":" + num(std::llround(std::min(2e9, std::max(-2e9, w.volume(mine) * 1000)))) + ",\"looks\":[";
        bool f2 = true;
        for (auto &l : looks) { out += (f2 ? "[" : ",[") + num(l.first.first) + "," + num(l.first.second) + "," + num(l.second) + "]"; f2 = false; }
        out += "],\"corners\":[";
        f2 = true;
        for (auto &q : foot) { out += (f2 ? "[" : ",[") + num(q.first) + "," + num(q.second) + "]"; f2 = false; }
        out += "]}";
      }
      out += "]";
      if (v.has("points")) {
        out += ",\"points\":[";
        std::set<std::array<long long, 4>> ps;
        for (size_t i = 0; i < m.vertices.size() / 3; ++i) {
          P p = at(m, (int) i);
          ps.insert({cu(p.u), cu(p.v), mm(p.h), colour(m.colors.at(i))});
        }
        bool f2 = true;
        for (auto &p : ps) { out += (f2 ? "[" : ",[") + num(p[0]) + "," + num(p[1]) + "," + num(p[2]) + "," + num(p[3]) + "]"; f2 = false; }
        out += "]";
      }
      if (v.has("samples")) {
        // triangles over each sample: [colour, texture, height, 1 up or -1 down, on its edge]; walls by colour and texture
        out += ",\"over\":[";
        for (size_t s = 0; s < v["samples"].a.size(); ++s) {
          double su = v["samples"][s][0].n, sv = v["samples"][s][1].n;
          out += s ? ",[" : "[";
          bool f2 = true;
          for (size_t i = 0; i < w.triangles.size(); ++i) {
            const P &a = w.places[w.triangles[i][0]], &b = w.places[w.triangles[i][1]], &c = w.places[w.triangles[i][2]];
            double cross = (b.u - a.u) * (c.v - a.v) - (b.v - a.v) * (c.u - a.u);
            if (std::fabs(cross) < 1e-4) continue;
            double x = ((b.u - su) * (c.v - sv) - (b.v - sv) * (c.u - su)) / cross, y = ((c.u - su) * (a.v - sv) - (c.v - sv) * (a.u - su)) / cross, z = 1 - x - y;
            if (x < -1e-5 || y < -1e-5 || z < -1e-5) continue;
            out += (f2 ? "[" : ",[") + num(colour(m.colors.at(w.origin[i]))) + "," + num(textureOf(m, w.origin[i])) + "," + num(mm(x * a.h + y * b.h + z * c.h)) +
                   "," + (cross > 0 ? "1" : "-1") + "," + (x < 1e-5 || y < 1e-5 || z < 1e-5 ? "1" : "0") + "]";
            f2 = false;
          }
          out += "]";
        }
        std::map<std::pair<int, int>, double> walls;
        for (size_t i = 0; i < w.triangles.size(); ++i) {
          const P &a = w.places[w.triangles[i][0]], &b = w.places[w.triangles[i][1]], &c = w.places[w.triangles[i][2]];
          double cross = (b.u - a.u) * (c.v - a.v) - (b.v - a.v) * (c.u - a.u);
          if (std::fabs(cross) >= 1e-4) continue;
          double x = (b.u - a.u) * (c.h - a.h) - (b.h - a.h) * (c.u - a.u), y = (b.v - a.v) * (c.h - a.h) - (b.h - a.h) * (c.v - a.v);
          walls[{colour(m.colors.at(w.origin[i])), textureOf(m, w.origin[i])}] += std::hypot(x, y) / 2;
        }
        out += "],\"walls\":[";
        bool f2 = true;
        for (auto &l : walls) { out += (f2 ? "[" : ",[") + num(l.first.first) + "," + num(l.first.second) + "," + num(std::llround(l.second * 100)) + "]"; f2 = false; }
        out += "]";
      }
      out += "}";
    }
    o.raw("meshes", out + "]");
    if (v.has("middles")) {
      // middles of the triangles of a colour, of meshes other than the one named
      std::string ms = "[";
      for (const auto &m : meshes) {
        if (m.name == v["besides"].s) continue;
        for (size_t i = 0; i + 2 < m.triangles.size(); i += 3) {
          if (colour(m.colors.at(m.triangles[i])) != v["middles"].i()) continue;
          P a = at(m, m.triangles[i]), b = at(m, m.triangles[i + 1]), c = at(m, m.triangles[i + 2]);
          ms += (ms.size() > 1 ? ",[" : "[") + num(cu((a.u + b.u + c.u) / 3)) + "," + num(cu((a.v + b.v + c.v) / 3)) + "]";
        }
      }
      o.raw("centres", ms + "]");
    }
  } else throw std::runtime_error("unknown operation " + ev);
}

int main() { return vj::loop(handle); }
