// Drives the providers of elevation. Built with the thread sanitizer, whose reports are counted.
#include "vjson.hpp"

#include "heightmap/FlatElevationProvider.hpp"
#include "heightmap/GridElevationProvider.hpp"
#include "heightmap/SrtmElevationProvider.hpp"
#include "utils/GeoUtils.hpp"

#include <sys/stat.h>
#include <unistd.h>
#include <atomic>
#include <fstream>
#include <map>
#include <memory>
#include <thread>

using namespace utymap;
using namespace utymap::heightmap;
using namespace utymap::utils;

static std::atomic<int> races(0);
extern "C" void __tsan_on_report(void *) { ++races; }
extern "C" const char *__tsan_default_options() { return "exitcode=0:log_path=/dev/null:atexit_sleep_ms=0:suppress_equal_stacks=0:suppress_equal_addresses=0"; }

static int epoch = 0;
static std::string dir;
static std::map<std::string, std::shared_ptr<ElevationProvider>> providers;

static std::shared_ptr<ElevationProvider> make(const std::string &kind) {
  if (kind == "grid") return std::make_shared<GridElevationProvider>(dir);
  if (kind == "srtm") return std::make_shared<SrtmElevationProvider>(dir);
  return std::make_shared<FlatElevationProvider>();
}

static std::string cellPath(int lat, int lon) {
  char b[64];
  snprintf(b, sizeof b, "%c%02d%c%03d.hgt", lat < 0 ? 'S' : 'N', std::abs(lat), lon < 0 ? 'W' : 'E', std::abs(lon));
  return dir + "/data/" + b;
}

/// value in thousandths, or -1e9 if refused
static long long sample(ElevationProvider &p, const vj::Value &v) {
  try {
    double lat, lon;
    std::unique_ptr<QuadKey> key;
    if (v.getb("cell", false)) {
      double s = v["seconds"].n / 3600;
      lat = v["lat"].n + (v["at"][1].n + v["at"][3].n / 8) * s;
      lon = v["lon"].n + (v["at"][0].n + v["at"][2].n / 8) * s;
      key.reset(new QuadKey(GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(lat, lon), v["lod"].i())));
    } else {
      key.reset(new QuadKey(v["lod"].i(), v["tile"][0].i(), v["tile"][1].i()));
      auto b = GeoUtils::quadKeyToBoundingBox(*key);
      double n = v["n"].n - 1;
      lat = b.minPoint.latitude + (v["at"][1].n + v["at"][3].n / 8) / n * b.height();
      lon = b.minPoint.longitude + (v["at"][0].n + v["at"][2].n / 8) / n * b.width();
    }
    double h = v["at"][0].i() % 2 ? p.getElevation(*key, lat, lon) : p.getElevation(*key, GeoCoordinate(lat, lon));
    if (!(std::fabs(h) < 1e6)) return -999999999;
    return std::llround(h * 1000);
  } catch (const std::exception &) {
    return -1000000000;
  }
}

static void handle(const vj::Value &v, vj::Out &o) {
  const std::string &ev = v["ev"].s;
  races = 0;
  if (ev == "reset" || ev == "restart") {
    if (ev == "reset") {
      dir = "ele" + std::to_string(++epoch);
      mkdir(dir.c_str(), 0777);
      mkdir((dir + "/data").c_str(), 0777);
      for (int i = 0; i < 20; ++i) mkdir((dir + "/data/" + std::to_string(i)).c_str(), 0777);
    }
    providers.clear();
    for (auto k : {"grid", "srtm", "flat"}) providers[k] = make(k);
  } else if (ev == "grid") {
    QuadKey q(v["lod"].i(), v["tile"][0].i(), v["tile"][1].i());
    std::ofstream f(dir + "/data/" + std::to_string(q.levelOfDetail) + "/" + GeoUtils::quadKeyToString(q) + ".ele");
    bool first = true;
    for (auto &h : v["heights"].a) { if (!first) f << ' '; first = false; f << h.i(); }
  } else if (ev == "cell") {
    int n = v["seconds"].i() == 3 ? 1201 : 3601;
    std::string data;
    data.reserve(2 * n * n);
    long long a = v["a"].i(), b = v["b"].i(), m = v["m"].i(), off = v["off"].i();
    for (int y = n - 1; y >= 0; --y)   // rows go from north to south
      for (int x = 0; x < n; ++x) {
        int h = (int) ((a * x + b * y) % m - off);
        data.push_back((char) ((h >> 8) & 255));
        data.push_back((char) (h & 255));
      }
    if (v.has("cut")) data.resize(data.size() - v["cut"].i());
    std::ofstream f(cellPath(v["lat"].i(), v["lon"].i()), std::ios::binary);
    f.write(data.data(), data.size());
  } else if (ev == "sample") {
    o.i("value", sample(*providers[v["kind"].s], v));
    if (v.getb("cell", false)) {
      struct stat st;
      o.b("file", stat(cellPath(v["lat"].i(), v["lon"].i()).c_str(), &st) == 0);
    }
  } else if (ev == "threads") {
    auto p = make(v["kind"].s);
    const auto &lists = v["_lists"].a;
    std::vector<std::vector<long long>> out(lists.size());
    std::vector<std::thread> ts;
    std::atomic<int> ready(0);
    for (size_t i = 0; i < lists.size(); ++i)
      ts.emplace_back([&, i] {
        ++ready;
        while (ready < (int) lists.size()) std::this_thread::yield();
        for (auto &s : lists[i].a) out[i].push_back(sample(*p, s));
      });
    for (auto &t : ts) t.join();
    std::string r = "[";
    for (size_t i = 0; i < out.size(); ++i)
      for (auto x : out[i]) r += (r.size() > 1 ? "," : "") + std::to_string(x);
    o.raw("values", r + "]");
  } else throw std::runtime_error("unknown operation " + ev);
  o.i("races", races);
}

int main() { return vj::loop(handle); }
