// Drives the index layer: LruCache, StringTable (also concurrently and across crashes) and the element
// stores, in memory and on disk.
#include "vcommon.hpp"

#include "index/GeoStore.hpp"
#include "index/InMemoryElementStore.hpp"
#include "index/PersistentElementStore.hpp"
#include "utils/LruCache.hpp"

#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <atomic>
#include <thread>

using namespace utymap;
using namespace utymap::entities;
using namespace utymap::index;
using namespace utymap::mapcss;
using namespace vc;

// ---- crash injection: the process is ended at its n-th write to a file -------------------------------
static int crashAt = -1;     // ends the process at this write (counted from 0); -1: never
static int crashBytes = 0;   // after letting through this many bytes of it (never more than it has)
static std::atomic<int> writes(0);

extern "C" ssize_t write(int fd, const void *buf, size_t n) {
  if (crashAt >= 0 && fd > 2) {
    if (writes++ == crashAt) {
      if (crashBytes > 0) syscall(SYS_write, fd, buf, (size_t) crashBytes < n ? (size_t) crashBytes : n);
      _exit(77);
    }
  }
  return syscall(SYS_write, fd, buf, n);
}
extern "C" ssize_t writev(int fd, const struct iovec *v, int c) {
  if (crashAt >= 0 && fd > 2) {
    if (writes++ == crashAt) {
      size_t left = crashBytes;
      for (int i = 0; i < c && left > 0; ++i) {
        size_t m = v[i].iov_len < left ? v[i].iov_len : left;
        syscall(SYS_write, fd, v[i].iov_base, m);
        left -= m;
      }
      _exit(77);
    }
  }
  return syscall(SYS_writev, fd, v, c);
}

// ---- state --------------------------------------------------------------------------------------------
static int serial = 0;
static std::string dir;

static std::unique_ptr<utils::LruCache<int, int>> lru;
static std::map<int, std::shared_ptr<int>> held;

static std::unique_ptr<StringTable> table;
static std::unique_ptr<ElementStore> store;
static std::unique_ptr<StyleProvider> style;
static std::string kind, sheet;
static Grid grid;

static std::function<void()> closeGeo = []() {};
static void closeAll() {
  closeGeo();
  store.reset();
  style.reset();
  table.reset();
}

static void openStore() {
  table.reset(new StringTable(dir + "/"));
  style.reset(new StyleProvider(MapCssParser().parse(sheet), *table));
  if (kind == "disk") store.reset(new PersistentElementStore(dir + "/data", *table));
  else if (kind == "mem") store.reset(new InMemoryElementStore(*table));
}

// ---- a store of stores, whose stores cancel an import after a given number of saves
static CancellationToken *importToken = nullptr;
static int cancelAfter = -1;

class WatchedStore : public ElementStore {
 public:
  WatchedStore(const StringTable &st, std::unique_ptr<ElementStore> inner, std::function<void(const Element &, const QuadKey &)> save)
      : ElementStore(st), inner_(std::move(inner)), save_(save) {}
  void search(const std::string &n, const std::string &a, const std::string &o, const BoundingBox &b, const LodRange &r,
              ElementVisitor &v, const CancellationToken &c) override { inner_->search(n, a, o, b, r, v, c); }
  void search(const QuadKey &q, ElementVisitor &v, const CancellationToken &c) override { inner_->search(q, v, c); }
  bool hasData(const QuadKey &q) const override { return inner_->hasData(q); }
  void erase(const QuadKey &q) override { inner_->erase(q); }
  void erase(const BoundingBox &b, const LodRange &r) override { inner_->erase(b, r); }
  void save(const Element &e, const QuadKey &q) override {
    save_(e, q);
    if (importToken && cancelAfter > 0 && --cancelAfter == 0) importToken->cancel();
  }
 private:
  std::unique_ptr<ElementStore> inner_;
  std::function<void(const Element &, const QuadKey &)> save_;
};

static std::unique_ptr<GeoStore> geo;

static std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
static std::string xmlEsc(const std::string &s) {
  std::string r;
  for (char c : s) {
    if (c == '&') r += "&amp;"; else if (c == '<') r += "&lt;"; else if (c == '>') r += "&gt;";
    else if (c == '"') r += "&quot;"; else r += c;
  }
  return r;
}
static std::string xmlTags(const vj::Value &v) {
  std::string r;
  if (v.has("tags")) for (const auto &p : v["tags"].a)
    r += "<tag k=\"" + xmlEsc(text(p[0])) + "\" v=\"" + xmlEsc(text(p[1])) + "\"/>\n";
  return r;
}
/// Nodes and open ways as an OSM XML file.
static std::string xmlFile(const vj::Value &els) {
  std::string nodes, ways;
  long long id = 1000000;
  auto node = [&](long long id, const vj::Value &p, const std::string &tags) {
    auto c = grid.geo(p[0].n, p[1].n);
    nodes += "<node id=\"" + std::to_string(id) + "\" lat=\"" + num(c.latitude) + "\" lon=\"" + num(c.longitude) + "\">" + tags + "</node>\n";
  };
  for (const auto &e : els.a) {
    if (e["t"].s == "N") node(wideId(e["id"].ll()), e["g"][0], xmlTags(e));
    else {
      ways += "<way id=\"" + std::to_string(wideId(e["id"].ll())) + "\">";
      for (const auto &p : e["g"].a) { node(id, p, ""); ways += "<nd ref=\"" + std::to_string(id++) + "\"/>"; }
      ways += xmlTags(e) + "</way>\n";
    }
  }
  return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<osm version=\"0.6\">\n" + nodes + ways + "</osm>\n";
}

static QuadKey qk(const vj::Value &v) { return QuadKey(v[0].i(), v[1].i(), v[2].i()); }
static BoundingBox box(const vj::Value &v, double more = 0) {
  // [umin, vmin, umax, vmax]; v grows to the south
  auto a = grid.geo(v[0].n - more, v[3].n + more), b = grid.geo(v[2].n + more, v[1].n - more);
  return BoundingBox(a, b);
}
static std::string join(const vj::Value &v) {
  std::string r;
  for (const auto &p : v.a) r += p.s;
  return r;
}

static void handle(const vj::Value &v, vj::Out &o) {
  const std::string &ev = v["ev"].s;
  // -------- LRU
  if (ev == "lru.new") { lru.reset(new utils::LruCache<int, int>(v["cap"].i())); }
  else if (ev == "lru.put") { lru->put(v["k"].i(), int(v["v"].i())); }
  else if (ev == "lru.get" || ev == "lru.peek") {
    try { o.i("res", ev == "lru.get" ? *lru->get(v["k"].i()) : *lru->peek(v["k"].i())); }
    catch (const std::range_error &) { o.i("res", -1); }
  }
  else if (ev == "lru.promote") {
    try { lru->promote(v["k"].i()); o.b("res", true); } catch (const std::range_error &) { o.b("res", false); }
  }
  else if (ev == "lru.exists") o.b("res", lru->exists(v["k"].i()));
  else if (ev == "lru.size") o.i("res", lru->size());
  else if (ev == "lru.clear") lru->clear();
  // -------- string table
  else if (ev == "st.new") {
    closeAll();
    if (!dir.empty()) rmtree(dir);
    dir = "d" + std::to_string(serial++);
    mkdirs(dir);
    table.reset(new StringTable(dir + "/"));
  }
  else if (ev == "st.reopen") { table.reset(); table.reset(new StringTable(dir + "/")); }
  else if (ev == "st.id") o.i("res", table->getId(v["s"].s));
  else if (ev == "st.str") o.s("res", *table->getString(v["id"].i()));
  else if (ev == "st.fill") {
    std::vector<long long> ids;
    for (const auto &s : v["list"].a) ids.push_back(table->getId(s.s));
    o.is("res", ids);
  }
  else if (ev == "st.par") {
    // every thread maps its own list of strings to ids (and back), all at once
    size_t n = v["lists"].size();
    std::vector<std::vector<long long>> ids(n);
    std::vector<std::vector<std::string>> back(n);
    std::atomic<int> ready(0);
    std::vector<std::thread> ts;
    for (size_t t = 0; t < n; ++t) ts.emplace_back([&, t]() {
      ++ready;
      while (ready < (int) n) {}
      for (const auto &s : v["lists"][t].a) {
        auto id = table->getId(s.s);
        ids[t].push_back(id);
        back[t].push_back(*table->getString(id));
      }
    });
    for (auto &t : ts) t.join();
    std::string a = "[", b = "[";
    for (size_t t = 0; t < n; ++t) {
      a += t ? ",[" : "["; b += t ? ",[" : "[";
      for (size_t i = 0; i < ids[t].size(); ++i) {
        a += (i ? "," : "") + std::to_string(ids[t][i]);
        b += (i ? "," : "") + vj::quote(back[t][i]);
      }
      a += "]"; b += "]";
    }
    o.raw("ids", a + "]").raw("back", b + "]");
  }
  else if (ev == "st.crash") {
    // A child process does the operations on the same files and is ended at write `at`; then the table is
    // opened again. Answers with what is there.
    table.reset();
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      writes = 0; crashBytes = v["bytes"].i(); crashAt = v["at"].i();
      {
        StringTable t(dir + "/");
        for (const auto &s : v["list"].a) t.getId(s.s);
      }
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    o.b("ended", WIFEXITED(st) && WEXITSTATUS(st) == 77);
    table.reset(new StringTable(dir + "/"));
    auto size = slurp(dir + "/string.idx").size() / 8;
    std::vector<std::string> all;
    for (size_t i = 0; i < size; ++i) all.push_back(*table->getString(i));
    o.ss("all", all);
  }
  // -------- element stores
  else if (ev == "es.new") {
    closeAll();
    if (!dir.empty()) rmtree(dir);
    dir = "d" + std::to_string(serial++);
    for (int l = 1; l <= 19; ++l) mkdirs(dir + "/data/" + std::to_string(l));
    grid = Grid::from(v["grid"]);
    kind = v["kind"].s;
    sheet = v["sheet"].s;
    openStore();
  }
  else if (ev == "es.reopen") {
    if (kind == "disk") { closeAll(); openStore(); }
  }
  else if (ev == "es.flush") {
    if (kind == "disk") static_cast<PersistentElementStore *>(store.get())->flush();
  }
  else if (ev == "es.put") {
    // tag values are lists of pieces
    Grid g = grid;
    auto e = element(v["el"], g, *table);
    std::string c = brief(Content::of(*e, *table));
    bool r;
    if (v.has("tile")) r = store->store(*e, qk(v["tile"]), *style);
    else if (v.has("box")) r = store->store(*e, box(v["box"]), LodRange(v["lods"][0].i(), v["lods"][1].i()), *style);
    else r = store->store(*e, LodRange(v["lods"][0].i(), v["lods"][1].i()), *style);
    o.s("c", c).b("res", r);
  }
  else if (ev == "es.get") {
    CancellationToken token;
    int left = v.geti("stop", -1);
    if (left == 0) token.cancel();
    std::vector<std::string> res;
    Collector col([&](const Element &e) {
      res.push_back(brief(Content::of(e, *table)));
      if (--left == 0) token.cancel();
    });
    store->search(qk(v["tile"]), col, token);
    o.ss("res", res);
  }
  else if (ev == "es.text") {
    CancellationToken token;
    std::vector<std::string> res;
    Collector col([&](const Element &e) { res.push_back(brief(Content::of(e, *table))); });
    store->search(join(v["nots"]), join(v["ands"]), join(v["ors"]), box(v["box"]),
                  LodRange(v["lods"][0].i(), v["lods"][1].i()), col, token);
    o.ss("res", res);
  }
  else if (ev == "es.geo" || ev == "es.shape") {
    CancellationToken token;
    std::string els = "[", cs = "[";
    double err = 0;
    Collector col([&](const Element &e) {
      els += (els.size() > 1 ? "," : "") + geoJson(e, *table, grid, err, ev == "es.shape" ? 64 : 1);
      cs += (cs.size() > 1 ? "," : "") + vj::quote(brief(Content::of(e, *table)));
    });
    store->search(qk(v["tile"]), col, token);
    o.raw("els", els + "]").raw("cs", cs + "]").i("err", (long long) std::ceil(err * 1000));
  }
  else if (ev == "es.has") o.b("res", store->hasData(qk(v["tile"])));
  else if (ev == "es.erase") store->erase(qk(v["tile"]));
  // -------- geo store
  else if (/* a file has rounded coordinates: boxes are made a little larger, which meets no other tile */ ev == "gs.new") {
    closeAll();
    if (!dir.empty()) rmtree(dir);
    dir = "d" + std::to_string(serial++);
    mkdirs(dir);
    grid = Grid::from(v["grid"]);
    sheet = v["sheet"].s;
    kind = "geo";
    openStore();
    geo.reset(new GeoStore(*table));
    closeGeo = []() { geo.reset(); };
    int n = 0;
    for (const auto &s : v["stores"].a) {
      if (s["kind"].s == "disk") {
        std::string d = dir + "/data" + std::to_string(n++);
        for (int l = 1; l <= 19; ++l) mkdirs(d + "/" + std::to_string(l));
        auto p = new PersistentElementStore(d, *table);
        geo->registerStore(s["key"].s, std::unique_ptr<ElementStore>(new WatchedStore(*table, std::unique_ptr<ElementStore>(p),
            [p](const Element &e, const QuadKey &q) { p->save(e, q); })));
      } else {
        auto p = new InMemoryElementStore(*table);
        geo->registerStore(s["key"].s, std::unique_ptr<ElementStore>(new WatchedStore(*table, std::unique_ptr<ElementStore>(p),
            [p](const Element &e, const QuadKey &q) { p->save(e, q); })));
      }
    }
  }
  else if (ev == "gs.add") {
    auto e = element(v["el"], grid, *table);
    o.s("c", brief(Content::of(*e, *table, &grid)));
    CancellationToken token;
    bool refused = false;
    try { geo->add(v["key"].s, *e, LodRange(v["lods"][0].i(), v["lods"][1].i()), *style, token); }
    catch (const std::exception &) { refused = true; }
    o.b("refused", refused);
  }
  else if (ev == "gs.import") {
    std::vector<std::string> cs;
    for (const auto &x : v["els"].a) cs.push_back(brief(Content::of(*element(x, grid, *table), *table, &grid)));
    std::string path = dir + "/import.xml";
    spit(path, xmlFile(v["els"]));
    CancellationToken token;
    importToken = &token;
    cancelAfter = v["stop"].i();
    if (cancelAfter == 0) token.cancel();
    bool refused = false;
    try {
      if (v.has("tile")) geo->add(v["key"].s, path, qk(v["tile"]), *style, token);
      else if (v.has("box")) geo->add(v["key"].s, path, box(v["box"], .5), LodRange(v["lods"][0].i(), v["lods"][1].i()), *style, token);
      else geo->add(v["key"].s, path, LodRange(v["lods"][0].i(), v["lods"][1].i()), *style, token);
    } catch (const std::exception &) { refused = true; }
    importToken = nullptr;
    o.ss("cs", cs).b("refused", refused).b("cancelled", token.isCancelled());
  }
  else if (ev == "gs.get") {
    CancellationToken token;
    int left = v.geti("stop", -1);
    if (left == 0) token.cancel();
    std::vector<std::string> res;
    Collector col([&](const Element &e) {
      res.push_back(brief(Content::of(e, *table, &grid)));
      if (--left == 0) token.cancel();
    });
    geo->search(qk(v["tile"]), *style, col, token);
    o.ss("res", res);
  }
  else if (ev == "gs.text") {
    CancellationToken token;
    std::vector<std::string> res;
    Collector col([&](const Element &e) { res.push_back(brief(Content::of(e, *table, &grid))); });
    geo->search(join(v["nots"]), join(v["ands"]), join(v["ors"]), box(v["box"], .5),
                LodRange(v["lods"][0].i(), v["lods"][1].i()), col, token);
    o.ss("res", res);
  }
  else if (ev == "gs.has") o.b("res", geo->hasData(qk(v["tile"])));
  else throw std::runtime_error("unknown op " + ev);
}

int main() {
  int r = vj::loop(handle);
  closeAll();
  if (!dir.empty()) rmtree(dir);
  return r;
}
