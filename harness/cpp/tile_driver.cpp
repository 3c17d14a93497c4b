// Drives tile building: QuadKeyBuilder over several stores, the mesh cache and what wraps builders with it.
#include "vcommon.hpp"

#include "builders/CacheBuilder.hpp"
#include "builders/MeshCache.hpp"
#include "builders/MeshPool.hpp"
#include "builders/QuadKeyBuilder.hpp"
#include "heightmap/FlatElevationProvider.hpp"
#include "index/GeoStore.hpp"
#include "index/InMemoryElementStore.hpp"

#include <atomic>
#include <mutex>
#include <thread>

using namespace utymap;
using namespace utymap::builders;
using namespace utymap::entities;
using namespace utymap::index;
using namespace utymap::mapcss;
using namespace utymap::math;
using namespace vc;

static int serial = 0;
static std::string dir;
static std::unique_ptr<StringTable> table;
static std::vector<std::unique_ptr<StyleProvider>> styles;
static heightmap::FlatElevationProvider flat;
static Grid grid;

// ---- a store which has, in a tile, what it was given -------------------------------------------------
class GivenStore : public ElementStore {
 public:
  explicit GivenStore(const StringTable &st) : ElementStore(st) {}
  std::map<std::vector<int>, std::vector<std::shared_ptr<Element>>> tiles;
  static std::vector<int> key(const QuadKey &q) { return {q.levelOfDetail, q.tileX, q.tileY}; }
  void search(const std::string &, const std::string &, const std::string &, const BoundingBox &, const LodRange &,
              ElementVisitor &, const CancellationToken &) override {}
  void search(const QuadKey &q, ElementVisitor &v, const CancellationToken &c) override {
    auto it = tiles.find(key(q));
    if (it == tiles.end()) return;
    for (const auto &e : it->second) {
      if (c.isCancelled()) break;
      e->accept(v);
    }
  }
  bool hasData(const QuadKey &q) const override { return tiles.find(key(q)) != tiles.end(); }
  void erase(const QuadKey &q) override { tiles.erase(key(q)); }
  void erase(const BoundingBox &, const LodRange &) override {}
  void save(const Element &, const QuadKey &) override {}
};

static std::unique_ptr<GeoStore> geo;
static std::map<std::string, GivenStore *> given;
static std::unique_ptr<QuadKeyBuilder> builder;

/// Ids of 1000 and more stand for ids which differ in their upper half.
static std::uint64_t wide(std::uint64_t id) { return id < 1000 ? id : (id / 1000 << 32) + id % 1000; }
static void widen(Element &e) {
  e.id = wide(e.id);
  if (auto r = dynamic_cast<Relation *>(&e)) for (auto &m : r->elements) widen(*m);
}
static long long narrow(std::uint64_t id) { return id < 1000 ? (long long) id : (long long) ((id >> 32) * 1000 + (id & 0xffffffff)); }

// ---- what a build does -------------------------------------------------------------------------------
struct Recording {
  std::vector<std::string> log;
  CancellationToken token;
  int cancelAt = -1, visits = 0;
  std::string brk;          // the builder which breaks down
  int throwAt = -1;
  void add(const std::string &b, const std::string &ev, const Element *e, const std::string &t, const QuadKey *q) {
    vj::Out o;
    o.s("b", b).s("do", ev).s("t", t).s("c", e ? brief(Content::of(*e, *table)) : "").i("id", e ? narrow(e->id) : 0);
    if (q) o.is("tile", {q->levelOfDetail, q->tileX, q->tileY});
    log.push_back(o.str());
    if (ev == "visit") {
      ++visits;
      if (visits == cancelAt) token.cancel();
      if (visits == throwAt) throw std::domain_error("broken builder");
    }
  }
  std::string json() const {
    std::string r = "[";
    for (size_t i = 0; i < log.size(); ++i) r += (i ? "," : "") + log[i];
    return r + "]";
  }
};
static std::map<const CancellationToken *, Recording *> running;
static std::mutex runningLock;
static Recording &of(const CancellationToken &t) {
  std::lock_guard<std::mutex> lock(runningLock);
  return *running.at(&t);
}

struct RecordingBuilder : ElementBuilder {
  std::string name; Recording &rec;
  RecordingBuilder(const std::string &name, const BuilderContext &c) : ElementBuilder(c), name(name), rec(of(c.cancelToken)) {}
  void prepare() override { rec.add(name, "prepare", nullptr, "", &context_.quadKey); }
  void complete() override { rec.add(name, "complete", nullptr, "", nullptr); }
  void visitNode(const Node &e) override { rec.add(name, "visit", &e, "N", nullptr); }
  void visitWay(const Way &e) override { rec.add(name, "visit", &e, "W", nullptr); }
  void visitArea(const Area &e) override { rec.add(name, "visit", &e, "A", nullptr); }
  void visitRelation(const Relation &e) override { rec.add(name, "visit", &e, "R", nullptr); }
};

static std::string typeOf(const Element &e) {
  struct V : ElementVisitor {
    std::string t;
    void visitNode(const Node &) override { t = "N"; }
    void visitWay(const Way &) override { t = "W"; }
    void visitArea(const Area &) override { t = "A"; }
    void visitRelation(const Relation &) override { t = "R"; }
  } v;
  e.accept(v);
  return v.t;
}
static std::string outline(const Element &e) {
  std::string tags = "[", m = "[";
  for (const auto &t : e.tags) tags += std::string(tags.size() > 1 ? "," : "") + "[" + vj::quote(*table->getString(t.key)) + "," + vj::quote(*table->getString(t.value)) + "]";
  if (auto r = dynamic_cast<const Relation *>(&e))
    for (const auto &x : r->elements) m += (m.size() > 1 ? "," : "") + outline(*x);
  vj::Out o;
  o.s("t", typeOf(e)).i("id", narrow(e.id)).s("c", brief(Content::of(e, *table))).raw("tags", tags + "]").raw("m", m + "]");
  return o.str();
}

static QuadKey qk(const vj::Value &v) { return QuadKey(v[0].i(), v[1].i(), v[2].i()); }

static void build(const vj::Value &v, Recording &rec, std::string &refused) {
  rec.cancelAt = v.geti("cancel", -1);
  rec.throwAt = v.geti("throw", -1);
  if (rec.cancelAt == 0) rec.token.cancel();
  { std::lock_guard<std::mutex> lock(runningLock); running[&rec.token] = &rec; }
  try {
    builder->build(qk(v["tile"]), *styles[0], flat, [](const Mesh &) {},
                   [&](const Element &e) { rec.add("*", "visit", &e, typeOf(e), nullptr); }, rec.token);
  } catch (const std::exception &e) { refused = e.what(); }
  { std::lock_guard<std::mutex> lock(runningLock); running.erase(&rec.token); }
}
static std::string buildJson(const vj::Value &v, const Recording &rec, const std::string &refused, const std::string &gv) {
  vj::Out o;
  o.raw("given", gv).raw("log", rec.json()).b("failed", !refused.empty()).b("cancelled", rec.token.isCancelled());
  return o.str();
}
static std::string givenJson(const vj::Value &v) {
  std::string gv = "[";
  CancellationToken t;
  Collector col([&](const Element &e) { gv += (gv.size() > 1 ? "," : "") + outline(e); });
  geo->search(qk(v["tile"]), *styles[0], col, t);
  return gv + "]";
}

// ---- the mesh cache ------------------------------------------------------------------------------------
static std::string meshText(const Mesh &m) {
  std::string r = "M" + m.name + "{";
  char b[40];
  auto d = [&](const std::vector<double> &x) { for (double y : x) { snprintf(b, sizeof b, "%a,", (float) y); r += b; } r += ";"; };
  auto n = [&](const std::vector<int> &x) { for (int y : x) r += std::to_string(y) + ","; r += ";"; };
  d(m.vertices); n(m.triangles); n(m.colors); d(m.uvs); n(m.uvMap);
  return brief(r + "}");
}

static std::string elementText(const Element &e) {
  std::string r = std::to_string(e.id) + " " + Content::of(e, *table);
  return brief(r);
}

static MeshPool meshPool;
static std::map<std::string, std::unique_ptr<MeshCache>> caches;

struct Session {
  std::unique_ptr<BuilderContext> context;
  std::unique_ptr<CancellationToken> token;
  std::unique_ptr<ElementBuilder> builder;
  std::vector<std::string> out, handed;
  int made = 0;
  int cancelAt = -1;
};
static std::map<int, std::shared_ptr<Session>> sessions;
static std::map<const CancellationToken *, Session *> byToken;
static std::mutex byTokenLock;

/// Makes, from every element, a mesh and the element itself; in the end one more mesh.
struct MakingBuilder : ElementBuilder {
  std::vector<std::uint64_t> seen;
  Session *session;
  explicit MakingBuilder(const BuilderContext &c) : ElementBuilder(c) {
    std::lock_guard<std::mutex> lock(byTokenLock);
    session = byToken.at(&c.cancelToken);
    session->made++;
  }
  void give(const Mesh &m) { session->handed.push_back(meshText(m)); context_.meshCallback(m); }
  void give(const Element &e) { session->handed.push_back(elementText(e)); context_.elementCallback(e); }
  static void fill(Mesh &m, int n, std::uint64_t seed) {
    std::uint64_t x = seed * 2654435761u + 1;
    auto next = [&]() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; };
    for (int i = 0; i < n; ++i) {
      m.vertices.push_back((double) (next() % 3600000) / 10000.0 - 180.0);
      m.triangles.push_back((int) (next() % 1000000));
      m.colors.push_back((int) next());
      m.uvs.push_back((double) (next() % 1000) / 999.0);
      m.uvMap.push_back((int) (next() % 4096));
    }
  }
  void make(const Element &e) {
    seen.push_back(e.id);
    Mesh m("mesh " + std::to_string(e.id));
    fill(m, (int) (e.id % 7) * (e.id % 5 == 4 ? 4000 : 1), e.id);
    give(m);
    if (e.id % 3) give(e);
  }
  void visitNode(const Node &e) override { make(e); }
  void visitWay(const Way &e) override { make(e); }
  void visitArea(const Area &e) override { make(e); }
  void visitRelation(const Relation &e) override { make(e); }
  void complete() override {
    if (seen.empty()) return;
    Mesh m("");
    std::uint64_t s = 7;
    for (auto i : seen) s = s * 31 + i;
    fill(m, 3 + (int) (s % 5), s);
    give(m);
  }
};

static std::shared_ptr<Session> openSession(const vj::Value &v) {
  auto s = std::make_shared<Session>();
  s->token.reset(new CancellationToken());
  Session *p = s.get();
  auto out = [p](const std::string &c) { p->out.push_back(c); if ((int) p->out.size() == p->cancelAt) p->token->cancel(); };
  s->cancelAt = v.geti("cancel", -1);
  s->context.reset(new BuilderContext(qk(v["tile"]), *styles[v["style"].i()], *table, meshPool, flat,
      [out](const Mesh &m) { out(meshText(m)); },
      [out](const Element &e) { out(elementText(e)); }, *s->token));
  { std::lock_guard<std::mutex> lock(byTokenLock); byToken[s->token.get()] = p; }
  s->builder.reset(new CacheBuilder<MakingBuilder>(*caches.at(v["cache"].s), *s->context));
  return s;
}
static void closeSession(std::shared_ptr<Session> s) {
  s->builder.reset();
  std::lock_guard<std::mutex> lock(byTokenLock);
  byToken.erase(s->token.get());
}
static std::string cacheFile(const vj::Value &v) {
  return dir + "/cache/" + styles[v["style"].i()]->getTag() + "/" + std::to_string(v["tile"][0].i()) + "/" +
         utils::GeoUtils::quadKeyToString(qk(v["tile"])) + "." + v["cache"].s;
}

static void closeAll() {
  for (auto &s : sessions) closeSession(s.second);
  sessions.clear();
  caches.clear();
  builder.reset();
  geo.reset();
  given.clear();
  styles.clear();
  table.reset();
}
static void start(const vj::Value &v) {
  closeAll();
  if (!dir.empty()) rmtree(dir);
  dir = "d" + std::to_string(serial++);
  mkdirs(dir);
  table.reset(new StringTable(dir + "/"));
  for (const auto &s : v["sheets"].a) styles.emplace_back(new StyleProvider(MapCssParser().parse(s.s), *table));
  if (v.has("grid")) grid = Grid::from(v["grid"]);
}
static void openCaches(const vj::Value &v) {
  caches.clear();
  for (const auto &n : v.a) caches.emplace(n.s, std::unique_ptr<MeshCache>(new MeshCache(dir, n.s)));
}

static void handle(const vj::Value &v, vj::Out &o) {
  const std::string &ev = v["ev"].s;
  if (ev == "tile.new") {
    start(v);
    geo.reset(new GeoStore(*table));
    for (const auto &s : v["stores"].a) {
      auto p = new GivenStore(*table);
      given[s.s] = p;
      geo->registerStore(s.s, std::unique_ptr<ElementStore>(p));
    }
    builder.reset(new QuadKeyBuilder(*geo, *table));
    for (const auto &b : v["builders"].a) {
      std::string n = b.s;
      builder->registerElementBuilder(n, [n](const BuilderContext &c) {
        return std::unique_ptr<ElementBuilder>(new RecordingBuilder(n, c));
      });
    }
  }
  else if (ev == "tile.put") {
    auto &list = given.at(v["key"].s)->tiles[GivenStore::key(qk(v["tile"]))];
    for (const auto &e : v["els"].a) { list.push_back(element(e, grid, *table)); widen(*list.back()); }
  }
  else if (ev == "tile.build") {
    auto gv = givenJson(v);
    Recording rec;
    std::string refused;
    build(v, rec, refused);
    o.raw("res", buildJson(v, rec, refused, gv));
  }
  else if (ev == "tile.par") {
    // builds of several tiles at once
    size_t n = v["builds"].size();
    std::vector<Recording> recs(n);
    std::vector<std::string> refused(n), gv(n);
    for (size_t i = 0; i < n; ++i) gv[i] = givenJson(v["builds"][i]);
    std::vector<std::thread> ts;
    std::atomic<int> ready(0);
    for (size_t i = 0; i < n; ++i) ts.emplace_back([&, i]() {
      ++ready;
      while (ready < (int) n) {}
      build(v["builds"][i], recs[i], refused[i]);
    });
    for (auto &t : ts) t.join();
    std::string r = "[";
    for (size_t i = 0; i < n; ++i) r += (i ? "," : "") + buildJson(v["builds"][i], recs[i], refused[i], gv[i]);
    o.raw("res", r + "]");
  }
  // -------- mesh cache
  else if (ev == "mc.new") {
    start(v);
    for (const auto &s : styles)
      for (const auto &l : v["lods"].a) mkdirs(dir + "/cache/" + s->getTag() + "/" + std::to_string(l.i()));
    openCaches(v["caches"]);
    std::vector<std::string> tags;
    for (const auto &s : styles) tags.push_back(s->getTag());
    o.ss("tags", tags);
  }
  else if (ev == "mc.enable") { for (const auto &c : caches) if (c.first == v["cache"].s) { if (v["on"].b) c.second->enable(); else c.second->disable(); } }
  else if (ev == "mc.open") {
    auto s = openSession(v);
    sessions[v["s"].i()] = s;
    s->builder->prepare();
    o.ss("out", s->out).b("made", s->made > 0);
  }
  else if (ev == "mc.visit" || ev == "mc.complete") {
    auto s = sessions.at(v["s"].i());
    s->out.clear();
    s->handed.clear();
    if (ev == "mc.complete") s->builder->complete();
    else { auto e = element(v["el"], grid, *table); widen(*e); e->accept(*s->builder); }
    if (ev == "mc.complete") { closeSession(s); sessions.erase(v["s"].i()); }
    o.ss("out", s->out).ss("handed", s->handed).b("cancelled", s->token->isCancelled());
  }
  else if (ev == "mc.cancel") sessions.at(v["s"].i())->token->cancel();
  else if (ev == "mc.drop") { auto s = sessions.at(v["s"].i()); closeSession(s); sessions.erase(v["s"].i()); }
  else if (ev == "mc.crash") {
    // the process ends here and starts again: what was in progress leaves a part of its file (or an empty one)
    for (auto &s : sessions) {
      new std::unique_ptr<ElementBuilder>(std::move(s.second->builder));
      new std::shared_ptr<Session>(s.second);
    }
    sessions.clear();
    for (auto &c : caches) new std::unique_ptr<MeshCache>(std::move(c.second));
    openCaches(v["caches"]);
    for (const auto &f : v["left"].a) {
      auto p = cacheFile(f);
      auto d = slurp(p);
      std::string name = p.substr(0, p.rfind('/'));
      struct stat st;
      if (stat(name.c_str(), &st) != 0) continue;
      if (!d.empty() && d[0] == 1) continue;   // complete
      size_t n = f["bytes"].i();
      d = n == 0 ? std::string() : std::string(1, '\0') + d.substr(std::min(d.size(), (size_t) 1), n);
      ::unlink(p.c_str());   // a new file: whoever still has the old one writes there
      spit(p, d);
    }
  }
  else if (ev == "mc.par") {
    // whole sessions at once
    size_t n = v["list"].size();
    std::vector<std::shared_ptr<Session>> ss;
    for (const auto &x : v["list"].a) ss.push_back(openSession(x));
    std::vector<std::thread> ts;
    std::vector<std::string> why(n);
    std::atomic<int> ready(0);
    std::vector<std::vector<std::shared_ptr<Element>>> els(n);
    for (size_t i = 0; i < n; ++i) for (const auto &e : v["list"][i]["els"].a) { els[i].push_back(element(e, grid, *table)); widen(*els[i].back()); }
    for (size_t i = 0; i < n; ++i) ts.emplace_back([&, i]() {
      ++ready;
      while (ready < (int) n) {}
      try {
        ss[i]->builder->prepare();
        for (const auto &e : els[i]) e->accept(*ss[i]->builder);
        ss[i]->builder->complete();
      } catch (const std::exception &e) { why[i] = e.what(); }
    });
    for (auto &t : ts) t.join();
    std::string r = "[";
    for (size_t i = 0; i < n; ++i) {
      closeSession(ss[i]);
      if (!why[i].empty()) throw std::runtime_error(why[i]);
      vj::Out x;
      x.ss("out", ss[i]->out).ss("handed", ss[i]->handed).b("made", ss[i]->made > 0);
      r += (i ? "," : "") + x.str();
    }
    o.raw("res", r + "]");
  }
  else throw std::runtime_error("unknown op " + ev);
}

int main() {
  int r = vj::loop(handle);
  closeAll();
  if (!dir.empty()) rmtree(dir);
  return r;
}
