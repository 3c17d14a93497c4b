// Drives the exported interface of the library, as a client in another language does.
#include "vcommon.hpp"

#include "ExportLib.cpp"

#include "utils/GradientUtils.hpp"
#include "utils/GeoUtils.hpp"

#include <atomic>
#include <mutex>
#include <set>
#include <thread>
#include <unistd.h>

using namespace utymap;
using namespace vc;

#if defined(__SANITIZE_THREAD__)
static std::atomic<int> races(0);
extern "C" void __tsan_on_report(void *) { ++races; }
extern "C" const char *__tsan_default_options() { return "exitcode=0:log_path=/dev/null:atexit_sleep_ms=0"; }
#endif

static int epoch = 0;
static std::string dir;
static Grid grid;
static bool connected = false;

static std::string xmlEsc(const std::string &s) {
  std::string r;
  for (char c : s) {
    if (c == '&') r += "&amp;"; else if (c == '<') r += "&lt;"; else if (c == '>') r += "&gt;";
    else if (c == '"') r += "&quot;"; else r += c;
  }
  return r;
}
static std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
static std::string xmlTags(const vj::Value &v) {
  std::string r;
  for (const auto &p : v["tags"].a) r += "<tag k=\"" + xmlEsc(text(p[0])) + "\" v=\"" + xmlEsc(text(p[1])) + "\"/>\n";
  return r;
}
static std::string xmlFile(const vj::Value &els) {
  std::string nodes, ways;
  long long id = 100000000;
  auto node = [&](long long id, const vj::Value &p, const std::string &tags) {
    auto c = grid.geo(p[0].n, p[1].n);
    nodes += "<node id=\"" + std::to_string(id) + "\" lat=\"" + num(c.latitude) + "\" lon=\"" + num(c.longitude) + "\">" + tags + "</node>\n";
  };
  for (const auto &e : els.a) {
    if (e["t"].s == "N") node(wideId(e["id"].ll()), e["g"][0], xmlTags(e));
    else {
      ways += "<way id=\"" + std::to_string(wideId(e["id"].ll())) + "\">";
      for (const auto &p : e["g"].a) { node(id, p, ""); ways += "<nd ref=\"" + std::to_string(id++) + "\"/>"; }
      ways += xmlTags(e) + "</way>\n";
    }
  }
  return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<osm version=\"0.6\">\n" + nodes + ways + "</osm>\n";
}

// ---- what the callbacks are told, by request tag: tags are unique over all requests at once
static std::mutex lock;
struct Told { std::vector<std::string> elements, meshes; std::string digest; };
static std::map<int, Told> told;
static std::atomic<int> errors(0);
static std::vector<std::string> made;      // directories asked for
static std::map<int, CancellationToken *> stopAt;   // requests cancelled by their first callback

static void onError(const char *m) { ++errors; std::cerr << "error: " << (m ? m : "?") << "\n"; }
static void onDirectory(const char *p) { made.push_back(p ? p : ""); }

static std::string pairs(const char **t, int n) {
  std::string r = "[";
  for (int i = 0; i + 1 < n; i += 2) r += std::string(i ? ",[" : "[") + vj::quote(t[i]) + "," + vj::quote(t[i + 1]) + "]";
  return r + "]";
}
static void point(double lon, double lat, std::string &out, double &err) {
  double u, v;
  grid.toGrid(GeoCoordinate(lat, lon), u, v);
  double a = std::round(u), b = std::round(v);
  err = std::max(err, std::max(std::fabs(u - a), std::fabs(v - b)));
  out = "[" + std::to_string((long long) a) + "," + std::to_string((long long) b) + "]";
}
static void onElement(int tag, std::uint64_t id, const char **tags, int tagsSize, const double *vs, int size, const char **style, int styleSize) {
  std::string g = "[", h = "[";
  double err = 0;
  for (int i = 0; i + 2 < size; i += 3) {
    std::string p;
    point(vs[i], vs[i + 1], p, err);
    g += (i ? "," : "") + p;
    h += (i ? "," : "") + std::to_string(std::llround(vs[i + 2] * 1000));
  }
  std::string r = "{\"id\":" + std::to_string(narrowId(id)) + ",\"odd\":" + (tagsSize % 2 || size % 3 || styleSize % 2 || err > 1e-4 ? "true" : "false") +
                  ",\"tags\":" + pairs(tags, tagsSize) + ",\"g\":" + g + "],\"h\":" + h + "],\"style\":" + pairs(style, styleSize) + "}";
  std::lock_guard<std::mutex> l(lock);
  told[tag].elements.push_back(r);
  if (stopAt.count(tag)) stopAt[tag]->cancel();
}

static const char *Palette[] = {"red", "blue", "green", "yellow"};
static void onMesh(int tag, const char *name, const double *vs, int vn, const int *ts, int tn, const int *cs, int cn, const double *uvs, int un, const int *map, int mn) {
  // names of meshes have ids in them
  std::string called = name;
  auto colon = called.find(':');
  if (colon != std::string::npos && colon + 1 < called.size() && called.find_first_not_of("0123456789", colon + 1) == std::string::npos)
    called = called.substr(0, colon + 1) + std::to_string(narrowId(std::stoull(called.substr(colon + 1))));
  math::Mesh m(called);
  m.vertices.assign(vs, vs + vn); m.triangles.assign(ts, ts + tn); m.colors.assign(cs, cs + cn);
  m.uvs.assign(uvs, uvs + un); m.uvMap.assign(map, map + mn);
  std::uint64_t h = 1469598103934665603ULL;
  auto mix = [&](const void *p, size_t n) { for (size_t i = 0; i < n; ++i) { h ^= ((const unsigned char *) p)[i]; h *= 1099511628211ULL; } };
  // meshes kept in files are in single precision
  std::vector<float> fv(vs, vs + vn), fu(uvs, uvs + un);
  mix(fv.data(), vn * sizeof(float)); mix(ts, tn * sizeof *ts); mix(cs, cn * sizeof *cs); mix(fu.data(), un * sizeof(float)); mix(map, mn * sizeof *map);
  char d[40];
  snprintf(d, sizeof d, "%016llx", (unsigned long long) h);
  // where it is: in units of the grid and thousandths of a metre
  double lo[3] = {1e18, 1e18, 1e18}, hi[3] = {-1e18, -1e18, -1e18};
  for (int i = 0; i + 2 < vn; i += 3) {
    double p[3];
    grid.toGrid(GeoCoordinate(vs[i + 1], vs[i]), p[0], p[1]);
    p[2] = vs[i + 2];
    for (int k = 0; k < 3; ++k) { lo[k] = std::min(lo[k], p[k]); hi[k] = std::max(hi[k], p[k]); }
  }
  auto r3 = [](double *p) {
    return "[" + std::to_string(std::llround(std::max(-1e5, std::min(1e5, p[0])) * 1000)) + "," + std::to_string(std::llround(std::max(-1e5, std::min(1e5, p[1])) * 1000)) + "," +
           std::to_string(std::llround(std::max(-1e5, std::min(1e5, p[2])) * 1000)) + "]";
  };
  std::set<int> seen;
  for (int c : m.colors) {
    int k = 0;
    for (int i = 0; i < 4; ++i) if ((int) utils::GradientUtils::parseGradient(Palette[i])->evaluate(0.5) == c) k = i + 1;
    seen.insert(k);
  }
  std::string colors = "[";
  for (int c : seen) colors += (colors.size() > 1 ? "," : "") + std::to_string(c);
  std::string r = "{\"name\":" + vj::quote(m.name) + ",\"digest\":\"" + d + "\",\"lo\":" + r3(lo) + ",\"hi\":" + r3(hi) + ",\"colors\":" + colors + "],\"formed\":" + formed(m) + "}";
  std::lock_guard<std::mutex> l(lock);
  told[tag].meshes.push_back(r);
  if (stopAt.count(tag)) stopAt[tag]->cancel();
}

static std::string list(const std::vector<std::string> &v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + v[i];
  return r + "]";
}
static std::string sheetPath(const std::string &name) { return dir + "/" + name + ".mapcss"; }
static std::string join(const vj::Value &v) {
  std::string r;
  for (const auto &p : v.a) r += p.s;
  return r;
}
static void corners(const vj::Value &v, GeoCoordinate &a, GeoCoordinate &b) {
  a = grid.geo(v[0].n, v[3].n);
  b = grid.geo(v[2].n, v[1].n);
}

static void close() {
  if (connected) disconnect();
  connected = false;
}

/// the directories asked for, as the folder below `below` they are in and their names; they are made
static void directories(const std::string &below, vj::Out &o) {
  std::string tag;
  std::vector<std::string> names;
  for (auto p : made) {
    std::string q;
    for (char c : p) if (!(c == '/' && !q.empty() && q.back() == '/')) q += c;
    bool inside = q.compare(0, below.size() + 1, below + "/") == 0 && q.find("..") == std::string::npos;
    if (inside) mkdirs(q);
    auto cut = q.find_last_of('/');
    std::string folder = inside ? q.substr(0, cut).substr(std::min(cut, below.size())) : "!" + q;
    if (!names.empty() && folder != tag) folder = "!mixed";
    tag = folder;
    names.push_back(q.substr(cut + 1));
  }
  made.clear();
  o.s("folder", tag).ss("lods", names);
}

static std::atomic<int> serial(1);

/// adds, gets or searches
static void request(const vj::Value &v, vj::Out &o, bool alone) {
  const std::string &ev = v["ev"].s;
  CancellationToken token;
  int before = errors;
  std::string sheet = v.has("sheet") ? sheetPath(v["sheet"].s) : "";
  if (ev == "add") {
    const auto &e = v["el"];
    std::vector<double> vs;
    for (const auto &p : e["g"].a) { auto c = grid.geo(p[0].n, p[1].n); vs.push_back(c.latitude); vs.push_back(c.longitude); }
    std::vector<std::string> ss;
    for (const auto &p : e["tags"].a) { ss.push_back(text(p[0])); ss.push_back(text(p[1])); }
    std::vector<const char *> ts;
    for (auto &s : ss) ts.push_back(s.c_str());
    addDataInElement(v["key"].s.c_str(), sheet.c_str(), wideId(e["id"].ll()), vs.data(), (int) vs.size(), ts.data(), (int) ts.size(),
                     v["lods"][0].i(), v["lods"][1].i(), onError, &token);
  } else if (ev == "import") {
    std::string file = dir + "/f" + std::to_string(serial++) + "." + v["as"].s;
    spit(file, xmlFile(v["els"]));
    if (v.has("tile"))
      addDataInQuadKey(v["key"].s.c_str(), sheet.c_str(), file.c_str(), v["tile"][1].i(), v["tile"][2].i(), v["tile"][0].i(), onError, &token);
    else if (v.has("box")) {
      GeoCoordinate a, b;
      corners(v["box"], a, b);
      addDataInBoundingBox(v["key"].s.c_str(), sheet.c_str(), file.c_str(), a.latitude, a.longitude, b.latitude, b.longitude, v["lods"][0].i(), v["lods"][1].i(), onError, &token);
    } else
      addDataInRange(v["key"].s.c_str(), sheet.c_str(), file.c_str(), v["lods"][0].i(), v["lods"][1].i(), onError, &token);
  } else if (ev == "has") {
    o.b("res", hasData(v["tile"][1].i(), v["tile"][2].i(), v["tile"][0].i()));
  } else if (ev == "get" || ev == "text") {
    // requests at once need tags of their own
    int tag = alone ? (int) v["tag"].i() : serial++ * 1000 + 7;
    { std::lock_guard<std::mutex> l(lock); if (alone) told.clear(); }
    if (v["cancel"].s == "before") token.cancel();
    if (v["cancel"].s == "first") { std::lock_guard<std::mutex> l(lock); stopAt[tag] = &token; }
    if (ev == "get")
      getDataByQuadKey(tag, sheet.c_str(), v["tile"][1].i(), v["tile"][2].i(), v["tile"][0].i(), v["ele"].i(), onMesh, onElement, onError, &token);
    else {
      GeoCoordinate a, b;
      corners(v["box"], a, b);
      getDataByText(tag, join(v["nots"]).c_str(), join(v["ands"]).c_str(), join(v["ors"]).c_str(), a.latitude, a.longitude, b.latitude, b.longitude,
                    v["lods"][0].i(), v["lods"][1].i(), onElement, onError, &token);
    }
    std::lock_guard<std::mutex> l(lock);
    stopAt.erase(tag);
    o.raw("elements", list(told[tag].elements)).raw("meshes", list(told[tag].meshes));
    told.erase(tag);
    if (alone) o.b("strange", !told.empty());
  } else if (ev == "height") {
    auto c = grid.geo(v["at"][0].n, v["at"][1].n);
    o.i("res", std::llround(getElevationByQuadKey(v["tile"][1].i(), v["tile"][2].i(), v["tile"][0].i(), v["ele"].i(), c.latitude, c.longitude) * 1000));
  } else throw std::runtime_error("unknown request " + ev);
  if (alone) o.i("errors", errors - before);
}

static void handle(const vj::Value &v, vj::Out &o) {
  const std::string &ev = v["ev"].s;
  errors = 0;
  if (ev == "reset") {
    close();
    if (!dir.empty()) rmtree(dir);
    dir = "api" + std::to_string(++epoch);
    mkdirs(dir + "/data");
    mkdirs(dir + "/cache");
    for (int i = 0; i < 20; ++i) mkdirs(dir + "/data/" + std::to_string(i));
    grid = Grid::from(v["grid"]);
  } else if (ev == "write") {
    spit(sheetPath(v["sheet"].s), v["text"].s);
    for (const auto &f : v["files"].a) spit(dir + "/" + f[0].s, f[1].s);
  } else if (ev == "ele") {
    QuadKey q(v["tile"][0].i(), v["tile"][1].i(), v["tile"][2].i());
    std::string h = std::to_string(v["h"].i());
    spit(dir + "/data/" + std::to_string(q.levelOfDetail) + "/" + utils::GeoUtils::quadKeyToString(q) + ".ele", h + " " + h + " " + h + " " + h);
  } else if (ev == "cell") {
    auto c = grid.geo(0, 0);
    int la = (int) std::floor(c.latitude), lo = (int) std::floor(c.longitude), h = v["h"].i();
    char b[64];
    snprintf(b, sizeof b, "%c%02d%c%03d.hgt", la < 0 ? 'S' : 'N', std::abs(la), lo < 0 ? 'W' : 'E', std::abs(lo));
    std::string d;
    for (int i = 0; i < 1201 * 1201; ++i) { d.push_back((char) ((h >> 8) & 255)); d.push_back((char) (h & 255)); }
    spit(dir + "/data/" + b, d);
  } else if (ev == "connect") {
    close();
    connect((dir + "/").c_str(), onError);
    connected = errors == 0;
    o.i("errors", errors);
  } else if (ev == "disconnect") {
    disconnect();
    if (v.getb("twice", false)) disconnect();
    connected = false;
  } else if (ev == "style") {
    made.clear();
    registerStylesheet(sheetPath(v["sheet"].s).c_str(), onDirectory);
    directories(dir + "/cache", o);
  } else if (ev == "memory") {
    registerInMemoryStore(v["key"].s.c_str());
  } else if (ev == "disk") {
    made.clear();
    registerPersistentStore(v["key"].s.c_str(), (dir + "/" + v["path"].s).c_str(), onDirectory);
    directories(dir + "/" + v["path"].s, o);
  } else if (ev == "cache") {
    enableMeshCache(v["on"].b ? 1 : 0);
  } else if (ev == "par") {
    // what each thread asks for, one after the other, while the others do the same
    const auto &threads = v["threads"].a;
    std::vector<std::vector<std::string>> res(threads.size());
    std::vector<std::thread> ts;
    std::atomic<int> ready(0);
    for (size_t i = 0; i < threads.size(); ++i) {
      res[i].resize(threads[i].size());
      ts.emplace_back([&, i] {
        ++ready;
        while (ready < (int) threads.size()) std::this_thread::yield();
        for (size_t k = 0; k < threads[i].size(); ++k) { vj::Out a; request(threads[i][k], a, false); res[i][k] = a.str(); }
      });
    }
    for (auto &t : ts) t.join();
    std::vector<std::string> all;
    for (auto &r : res) all.push_back(list(r));
    o.raw("res", list(all)).i("errors", errors);
#if defined(__SANITIZE_THREAD__)
    o.i("races", races.exchange(0));
#endif
  } else {
    request(v, o, true);
  }
}

int main() { return vj::loop(handle); }
