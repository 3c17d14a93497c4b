// Helpers shared by the drivers: geometry on an integer grid, elements from JSON, canonical content.
#ifndef VCOMMON_HPP
#define VCOMMON_HPP

#include "vjson.hpp"

#include "BoundingBox.hpp"
#include "CancellationToken.hpp"
#include "GeoCoordinate.hpp"
#include "LodRange.hpp"
#include "QuadKey.hpp"
#include "entities/Area.hpp"
#include "entities/Node.hpp"
#include "entities/Relation.hpp"
#include "entities/Way.hpp"
#include "index/StringTable.hpp"
#include "mapcss/MapCssParser.hpp"
#include "mapcss/StyleProvider.hpp"

#include <sys/stat.h>
#include <dirent.h>
#include <algorithm>
#include <cmath>
#include <fstream>
#include <memory>
#include <sstream>

namespace vc {

using namespace utymap;
using namespace utymap::entities;

inline void mkdirs(const std::string &p) {
  for (size_t i = 1; i <= p.size(); ++i)
    if (i == p.size() || p[i] == '/') ::mkdir(p.substr(0, i).c_str(), 0777);
}

inline void rmtree(const std::string &p) {
  // only below the working directory of the driver (a scratch folder made by the check)
  if (p.empty() || p[0] == '/' || p.find("..") != std::string::npos) throw std::runtime_error("refusing " + p);
  DIR *d = opendir(p.c_str());
  if (!d) { ::unlink(p.c_str()); return; }
  while (auto e = readdir(d)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string f = p + "/" + n;
    struct stat st;
    if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmtree(f); else ::unlink(f.c_str());
  }
  closedir(d);
  ::rmdir(p.c_str());
}

/// Ids of a history are small numbers; those of its elements have 64 bits: "hi" of the grid is their upper half.
inline std::uint64_t &idBase() { static std::uint64_t b = 0; return b; }
inline std::uint64_t wideId(long long i) { return i ? (std::uint64_t) i + idBase() : 0; }
inline long long narrowId(std::uint64_t i) {
  if (!i) return 0;
  std::uint64_t r = i - idBase();
  return r < 2000000000 ? (long long) r : -1;
}

/// Grid: the world at level L is 2^L x 2^L tiles. A grid has K units per tile of level L, with unit
/// (0,0) at the corner of tile (X,Y) of level L. u grows to the east, v to the south.
struct Grid {
  int lod = 3, x = 0, y = 0, k = 4;
  double skew = 0;   // thousandths: keeps the edges of elements off the horizontal and the vertical

  GeoCoordinate geo(double u, double v) const {
    double n = std::pow(2.0, lod);
    double fx = (x + u / k) / n, fy = (y + v / k) / n;
    double lon = fx * 360.0 - 180.0;
    double lat = std::atan(std::sinh(M_PI * (1 - 2 * fy))) * 180.0 / M_PI;
    return GeoCoordinate(lat, lon);
  }
  void toGrid(const GeoCoordinate &c, double &u, double &v) const {
    double n = std::pow(2.0, lod);
    double fx = (c.longitude + 180.0) / 360.0;
    double r = c.latitude * M_PI / 180.0;
    double fy = (1 - std::asinh(std::tan(r)) / M_PI) / 2;
    u = (fx * n - x) * k;
    v = (fy * n - y) * k;
  }
  static Grid from(const vj::Value &v) {
    Grid g;
    g.lod = v["lod"].i(); g.x = v["x"].i(); g.y = v["y"].i(); g.k = v["k"].i();
    idBase() = v.has("hi") ? (std::uint64_t) v["hi"].i() << 32 : 0;
    if (v.has("skew")) g.skew = v["skew"].n / 1000;
    return g;
  }
};

inline std::string hexd(double d) { char b[40]; snprintf(b, sizeof b, "%a", d); return b; }

/// Canonical text of an element: everything it carries, bit for bit.
struct Content : ElementVisitor {
  const index::StringTable &st;
  std::string r;
  const Grid *grid;   // when given, coordinates are rounded to it
  explicit Content(const index::StringTable &st, const Grid *grid = nullptr) : st(st), grid(grid) {}
  void head(const char *t, const Element &e) {
    r += t; r += std::to_string(e.id); r += "{";
    for (const auto &tag : e.tags) r += *st.getString(tag.key) + "=" + *st.getString(tag.value) + ";";
    r += "}";
  }
  void coord(const GeoCoordinate &c) {
    if (grid) {
      double u, v;
      grid->toGrid(c, u, v);
      r += std::to_string(std::lround(u)) + "," + std::to_string(std::lround(v)) + " ";
      return;
    }
    r += hexd(c.latitude) + "," + hexd(c.longitude) + " ";
  }
  void visitNode(const Node &e) override { head("N", e); coord(e.coordinate); }
  void visitWay(const Way &e) override { head("W", e); for (const auto &c : e.coordinates) coord(c); }
  void visitArea(const Area &e) override { head("A", e); for (const auto &c : e.coordinates) coord(c); }
  void visitRelation(const Relation &e) override {
    head("R", e); r += "(";
    for (const auto &m : e.elements) { m->accept(*this); r += "|"; }
    r += ")";
  }
  static std::string of(const Element &e, const index::StringTable &st, const Grid *grid = nullptr) {
    Content c(st, grid);
    e.accept(c);
    return c.r;
  }
};

/// A short name of a content: type and id, and a hash of all of it.
inline std::string brief(const std::string &c) {
  std::uint64_t h = 1469598103934665603ULL;
  for (unsigned char x : c) { h ^= x; h *= 1099511628211ULL; }
  char b[40];
  snprintf(b, sizeof b, "#%016llx", (unsigned long long) h);
  return c.substr(0, c.find('{')) + b;
}

/// A text is a string or a list of pieces.
inline std::string text(const vj::Value &v) {
  if (v.kind != vj::Value::Arr) return v.s;
  std::string r;
  for (const auto &p : v.a) r += p.s;
  return r;
}

/// {"t":"N|W|A|R","id":1,"tags":[["k","v"],..],"g":[[u,v],..],"m":[members]}
inline std::shared_ptr<Element> element(const vj::Value &v, const Grid &g, const index::StringTable &st) {
  std::shared_ptr<Element> e;
  const std::string &t = v["t"].s;
  std::vector<GeoCoordinate> cs;
  if (v.has("g")) for (const auto &p : v["g"].a) cs.push_back(g.geo(p[0].n + g.skew * p[1].n, p[1].n + g.skew * p[0].n));
  // "rep": the points, or the members, over and over until there are so many of them
  size_t rep = v.has("rep") ? v["rep"].i() : 1;
  for (size_t i = 0; !cs.empty() && cs.size() < rep; ++i) cs.push_back(cs[i]);
  if (t == "N") { auto x = std::make_shared<Node>(); x->coordinate = cs.at(0); e = x; }
  else if (t == "W") { auto x = std::make_shared<Way>(); x->coordinates = cs; e = x; }
  else if (t == "A") { auto x = std::make_shared<Area>(); x->coordinates = cs; e = x; }
  else {
    auto x = std::make_shared<Relation>();
    if (v.has("m")) for (const auto &m : v["m"].a) x->elements.push_back(element(m, g, st));
    for (size_t i = 0; !x->elements.empty() && x->elements.size() < rep; ++i) x->elements.push_back(x->elements[i]);
    e = x;
  }
  e->id = wideId(v["id"].ll());
  if (v.has("tags")) for (const auto &p : v["tags"].a) e->tags.push_back(Tag(st.getId(text(p[0])), st.getId(text(p[1]))));
  std::sort(e->tags.begin(), e->tags.end());
  if (v.has("ign")) e->tags.push_back(Tag(std::numeric_limits<std::uint32_t>::max(), 0));
  return e;
}

/// An element as JSON with its geometry rounded to the grid; err: the largest distance from it seen so far.
inline std::string geoJson(const Element &e, const index::StringTable &st, const Grid &g, double &err, double scale = 1) {
  struct V : ElementVisitor {
    const index::StringTable &st; const Grid &g; double &err; double scale;
    std::string r;
    V(const index::StringTable &st, const Grid &g, double &err, double scale) : st(st), g(g), err(err), scale(scale) {}
    void head(const char *t, const Element &e) {
      r = std::string("{\"t\":\"") + t + "\",\"id\":" + std::to_string(narrowId(e.id)) + ",\"tags\":[";
      for (size_t i = 0; i < e.tags.size(); ++i)
        r += (i ? ",[" : "[") + vj::quote(*st.getString(e.tags[i].key)) + "," + vj::quote(*st.getString(e.tags[i].value)) + "]";
      r += "]";
    }
    void points(const std::vector<GeoCoordinate> &cs) {
      r += ",\"g\":[";
      for (size_t i = 0; i < cs.size(); ++i) {
        double u, v;
        g.toGrid(cs[i], u, v);
        u *= scale; v *= scale;
        double a = std::round(u), b = std::round(v);
        err = std::max(err, std::max(std::fabs(u - a), std::fabs(v - b)));
        r += (i ? ",[" : "[") + std::to_string((long long) a) + "," + std::to_string((long long) b) + "]";
      }
      r += "]}";
    }
    void visitNode(const Node &e) override { head("N", e); points({e.coordinate}); }
    void visitWay(const Way &e) override { head("W", e); points(e.coordinates); }
    void visitArea(const Area &e) override { head("A", e); points(e.coordinates); }
    void visitRelation(const Relation &e) override {
      head("R", e);
      std::string m = r + ",\"m\":[";
      for (size_t i = 0; i < e.elements.size(); ++i) m += (i ? "," : "") + geoJson(*e.elements[i], st, g, err, scale);
      r = m + "]}";
    }
  } v(st, g, err, scale);
  e.accept(v);
  return v.r;
}

struct Collector : ElementVisitor {
  std::function<void(const Element &)> f;
  explicit Collector(std::function<void(const Element &)> f) : f(std::move(f)) {}
  void visitNode(const Node &e) override { f(e); }
  void visitWay(const Way &e) override { f(e); }
  void visitArea(const Area &e) override { f(e); }
  void visitRelation(const Relation &e) override { f(e); }
};

inline std::string slurp(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream ss; ss << f.rdbuf();
  return ss.str();
}
inline void spit(const std::string &p, const std::string &d) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f << d;
}

/// what is said of every mesh
template <class M> std::string formed(const M &m) {
  long long lo = 0, hi = -1;
  for (int i : m.triangles) { lo = std::min<long long>(lo, i); hi = std::max<long long>(hi, i); }
  bool finite = true;
  for (double d : m.vertices) finite = finite && std::isfinite(d);
  for (double d : m.uvs) finite = finite && std::isfinite(d);
  // triangles which use a vertex twice
  long long twice = 0;
  for (size_t i = 0; i + 2 < m.triangles.size(); i += 3)
    if (m.triangles[i] == m.triangles[i + 1] || m.triangles[i] == m.triangles[i + 2] || m.triangles[i + 1] == m.triangles[i + 2]) ++twice;
  std::vector<bool> used(m.vertices.size() / 3, false);
  for (int i : m.triangles) if (i >= 0 && (size_t) i < used.size()) used[i] = true;
  std::string map = "[";
  for (size_t i = 0; i < m.uvMap.size(); i += 8) map += (i ? "," : "") + std::to_string(m.uvMap[i]);
  return "{\"name\":" + vj::quote(m.name) + ",\"coords\":" + std::to_string(m.vertices.size()) + ",\"corners\":" + std::to_string(m.triangles.size()) +
         ",\"colors\":" + std::to_string(m.colors.size()) + ",\"uvs\":" + std::to_string(m.uvs.size()) + ",\"map\":" + std::to_string(m.uvMap.size()) +
         ",\"ends\":" + map + "],\"lo\":" + std::to_string(lo) + ",\"hi\":" + std::to_string(hi) + ",\"finite\":" + (finite ? "true" : "false") +
         ",\"twice\":" + std::to_string(twice) + ",\"unused\":" + std::to_string(std::count(used.begin(), used.end(), false)) + "}";
}

}
#endif
