// Drives MeshBuilder, copyMesh and MeshPool, and shows what meshes are for who uses them: triangles.
#include "vcommon.hpp"

#include <functional>

#include "builders/MeshBuilder.hpp"
#include "builders/MeshPool.hpp"
#include "heightmap/FlatElevationProvider.hpp"
#include "mapcss/ColorGradient.hpp"
#include "utils/GeoUtils.hpp"
#include "heightmap/ElevationProvider.hpp"
#include "utils/MeshUtils.hpp"

using namespace utymap;
using namespace utymap::builders;
using namespace utymap::mapcss;
using namespace utymap::math;
using namespace utymap::utils;
using namespace vc;

static std::map<std::string, std::unique_ptr<Mesh>> meshes;
static std::unique_ptr<MeshPool> pool;
static std::vector<TextureRegion> regions;
static std::vector<int> ids;
static std::vector<ColorGradient> gradients;
static double Unit = 1e-5;
static QuadKey key(16, 32800, 32770);

static std::string num(long long n) { return std::to_string(n); }

/// textures: some share an id, some a place, the last one is none
static void setup() {
  regions.clear(); ids.clear(); gradients.clear();
  regions.push_back(TextureRegion(512, 256, 0, 0, 64, 32)); ids.push_back(1);
  regions.push_back(TextureRegion(512, 256, 64, 0, 64, 32)); ids.push_back(1);
  regions.push_back(TextureRegion(512, 256, 0, 0, 64, 32)); ids.push_back(2);
  regions.push_back(TextureRegion(512, 256, 0, 32, 64, 32)); ids.push_back(1);
  regions.push_back(TextureRegion(256, 512, 0, 0, 64, 32)); ids.push_back(1);
  regions.push_back(TextureRegion(512, 256, 0, 0, 64, 64)); ids.push_back(1);
  regions.push_back(TextureRegion()); ids.push_back(0);
  for (int i = 0; i < 3; ++i) {
    Color c(10 * i + 1, 200 - i, 7, 255);
    gradients.emplace_back(ColorGradient::GradientData{{0.0, c}, {1.0, c}});
  }
}

static int colourOf(int c) {
  for (size_t i = 0; i < gradients.size(); ++i) if ((int) gradients[i].evaluate(0.5) == c) return (int) i + 1;
  return 0;
}

static int textureOf(const Mesh &m, int vertex) {
  for (size_t i = 0; i + 7 < m.uvMap.size(); i += 8)
    if (vertex * 2 < m.uvMap[i]) {
      for (size_t k = 0; k < regions.size(); ++k) {
        auto &r = regions[k];
        int e[] = {ids[k], r.atlasWidth, r.atlasHeight, r.x, r.y, r.width, r.height};
        if (std::equal(e, e + 7, m.uvMap.begin() + i + 1)) return (int) k + 1;
      }
      return -1;
    }
  return 0;
}

static std::string shown(const Mesh &m) {
  std::string s = "[";
  for (size_t i = 0; i + 2 < m.triangles.size(); i += 3) {
    std::string at, uv;
    int c = -1, x = -1;
    for (int k = 0; k < 3; ++k) {
      int v = m.triangles[i + k];
      at += std::string(k ? ",[" : "[") + num(std::llround(m.vertices.at(3 * v) / Unit * 10)) + "," + num(std::llround(m.vertices.at(3 * v + 1) / Unit * 10)) + "," +
            num(std::llround(m.vertices.at(3 * v + 2) * 10)) + "]";
      uv += std::string(k ? ",[" : "[") + num(std::llround(m.uvs.at(2 * v) / Unit * 100)) + "," + num(std::llround(m.uvs.at(2 * v + 1) / Unit * 100)) + "]";
      int c1 = colourOf(m.colors.at(v)), x1 = textureOf(m, v);
      c = k == 0 || c == c1 ? c1 : -1;
      x = k == 0 || x == x1 ? x1 : -1;
    }
    s += std::string(i ? "," : "") + "{\"at\":[" + at + "],\"uv\":[" + uv + "],\"color\":" + num(c) + ",\"tex\":" + num(x) + "}";
  }
  return s + "]";
}

static Mesh &get(const std::string &n) {
  auto &p = meshes[n];
  if (!p) throw std::runtime_error("no mesh " + n);
  return *p;
}
static Vector3 v3(const vj::Value &p) { return Vector3(p[0].n * Unit, p[2].n, p[1].n * Unit); }

static void handle(const vj::Value &v, vj::Out &o) {
  const std::string &op = v["ev"].s;
  if (op == "new") { meshes.clear(); pool.reset(new MeshPool()); if (regions.empty()) setup(); return; }
  if (op == "restart") return;
  static heightmap::FlatElevationProvider flat;
  MeshBuilder builder(key, flat);
  double width = GeoUtils::quadKeyToBoundingBox(key).width();
  const std::string &name = v["m"].s;
  auto appearance = [&]() {
    int tex = v.has("tex") ? (int) v["tex"].i() - 1 : 0;
    return MeshBuilder::AppearanceOptions(gradients.at(v.has("color") ? v["color"].i() - 1 : 0), 0, ids.at(tex), regions.at(tex), width * (v.has("scale") ? v["scale"].n : 1));
  };
  MeshBuilder::GeometryOptions geometry(v.has("area") ? v["area"].n * Unit * Unit : 0, 0, v.has("ele") ? v["ele"].n : 0, v.has("h") ? v["h"].n : 0, v.has("split") ? (int) v["split"].i() : 0);
  if (op == "get") {
    if (meshes[name]) throw std::runtime_error("taken");
    meshes[name].reset(new Mesh(v["large"].b ? pool->getLarge(name) : pool->getSmall(name)));
  } else if (op == "release") {
    pool->release(std::move(get(name)));
    meshes[name].reset();
    return;
  } else if (op == "triangle") {
    geometry.hasBackSide = v["back"].b;
    std::vector<Vector2> uv;
    for (auto &p : v["uv"].a) uv.emplace_back(p[0].n * Unit, p[1].n * Unit);
    builder.addTriangle(get(name), v3(v["at"][0]), v3(v["at"][1]), v3(v["at"][2]), uv[0], uv[1], uv[2], geometry, appearance());
  } else if (op == "plane") {
    builder.addPlane(get(name), v3(v["p"]), v3(v["q"]), geometry, appearance());
  } else if (op == "plane2") {
    builder.addPlane(get(name), Vector2(v["p"][0].n * Unit, v["p"][1].n * Unit), Vector2(v["q"][0].n * Unit, v["q"][1].n * Unit), geometry, appearance());
  } else if (op == "polygon") {
    geometry.flipSide = v["flip"].b;
    Polygon polygon(1, 1);
    for (auto &r : v["rings"].a) {
      std::vector<Vector2> ps;
      for (auto &p : r.a) ps.emplace_back(p[0].n * Unit, p[1].n * Unit);
      if (&r == &v["rings"].a[0]) polygon.addContour(ps); else polygon.addHole(ps);
    }
    Mesh &m = get(name);
    size_t before = m.triangles.size();
    builder.addPolygon(m, polygon, geometry, appearance());
    double sum = 0, largest = 0;
    long long up = 0, down = 0;
    for (size_t i = before; i + 2 < m.triangles.size(); i += 3) {
      auto p = [&](int k) { int n = m.triangles[i + k]; return Vector2(m.vertices.at(3 * n) / Unit, m.vertices.at(3 * n + 1) / Unit); };
      double cross = (p(1).x - p(0).x) * (p(2).y - p(0).y) - (p(1).y - p(0).y) * (p(2).x - p(0).x);
      sum += std::fabs(cross);
      largest = std::max(largest, std::fabs(cross));
      if (std::fabs(cross) > 1e-3) (cross < 0 ? up : down) += 1;   // what is just a line has no side
    }
    o.i("size2", std::llround(sum * 10)).i("largest2", std::llround(largest * 10)).i("up", up).i("down", down);
  } else if (op == "map") {
    builder.writeTextureMappingInfo(get(name), appearance());
  } else if (op == "copy") {
    utils::copyMesh(Vector3(v["by"][0].n * Unit, v["by"][2].n, v["by"][1].n * Unit), get(v["from"].s), get(name));
  } else if (op == "clear") {
    get(name).clear();
  } else if (op == "many") {
    size_t before = get(name).triangles.size() / 3;   // so many that the pool calls it large
    auto ap = appearance();
    for (int i = 0; i < v["n"].i(); ++i)
      builder.addTriangle(get(name), Vector3(0, 0, 0), Vector3(1, 0, 0), Vector3(0, 0, 1), Vector2(0, 0), Vector2(0, 0), Vector2(0, 0), geometry, ap);
    o.i("count", get(name).triangles.size() / 3 - before);
    get(name).clear();
  } else throw std::runtime_error("unknown operation " + op);
  const Mesh &m = get(name);
  o.s("name", m.name);
  o.raw("formed", "[" + formed(m) + "]").raw("shown", shown(m));
}

int main() { return vj::loop(handle); }
