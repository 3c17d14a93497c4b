// Drives style sheets: resolution of styles, expressions, gradients, textures, l-systems.
#include "vcommon.hpp"

#include "lsys/LSystem.hpp"
#include "lsys/LSystemParser.hpp"
#include "lsys/Turtle3d.hpp"
#include "mapcss/MapCssParser.hpp"
#include "mapcss/StyleProvider.hpp"
#include "mapcss/StyleConsts.hpp"
#include "utils/GradientUtils.hpp"

#include <atomic>
#include <thread>

using namespace utymap;
using namespace utymap::entities;
using namespace utymap::index;
using namespace utymap::mapcss;
using namespace utymap::lsys;
using namespace vc;

static int serial = 0;
static std::string dir;
static std::unique_ptr<StringTable> table;
static std::map<int, std::unique_ptr<StyleProvider>> styles;

static void fresh() {
  styles.clear();
  table.reset();
  if (!dir.empty()) rmtree(dir);
  dir = "s" + std::to_string(serial++);
  mkdirs(dir);
  table.reset(new StringTable(dir + "/"));
}

static std::string declsJson(const Style &s) {
  std::map<std::string, std::string> m;
  for (auto d : s.declarations()) m[*table->getString(d->key())] = d->value();
  std::string r = "[";
  for (const auto &p : m) r += (r.size() > 1 ? ",[" : "[") + vj::quote(p.first) + "," + vj::quote(p.second) + "]";
  return r + "]";
}

static std::vector<std::string> sorted(std::vector<std::string> v) { std::sort(v.begin(), v.end()); return v; }

static std::shared_ptr<Element> probe(const vj::Value &v) {
  std::shared_ptr<Element> e;
  const std::string &t = v["t"].s;
  if (t == "node") e = std::make_shared<Node>();
  else if (t == "way") e = std::make_shared<Way>();
  else if (t == "area") e = std::make_shared<Area>();
  else e = std::make_shared<Relation>();
  e->id = v.has("ids") ? std::stoull(v["ids"].s) : (std::uint64_t) v["id"].ll();
  for (const auto &p : v["tags"].a) e->tags.push_back(Tag(table->getId(p[0].s), table->getId(p[1].s)));
  std::sort(e->tags.begin(), e->tags.end());
  return e;
}

/// A number as an exact fraction with a power of two below it, if that is small enough.
static std::string number(double d) {
  if (std::isnan(d) || std::isinf(d)) return "[0,0]";
  long long den = 1;
  for (int i = 0; i <= 20; ++i, den *= 2) {
    double n = d * den;
    if (std::fabs(n) < 2e9 && std::fabs(n - std::round(n)) <= std::fabs(n) * 1e-14)
      return "[" + std::to_string((long long) std::round(n)) + "," + std::to_string(den) + "]";
    if (std::fabs(n) >= 2e9) break;
  }
  return "[0,0]";  // none
}

static double earthRadius(double latDegrees) {
  const double a = 6378137.0, b = 6356752.3, lat = latDegrees * M_PI / 180;
  double an = a * a * cos(lat), bn = b * b * sin(lat), ad = a * cos(lat), bd = b * sin(lat);
  return sqrt((an * an + bn * bn) / (ad * ad + bd * bd));
}

static std::string colorJson(const Color &c) {
  return "[" + std::to_string(c.r) + "," + std::to_string(c.g) + "," + std::to_string(c.b) + "," + std::to_string(c.a) + "]";
}

/// Records what it is told.
struct Recorder : Turtle {
  std::vector<std::string> path;
  void moveForward() override { path.push_back("F"); }
  void jumpForward() override { path.push_back("G"); }
  void turnLeft() override { path.push_back("+"); }
  void turnRight() override { path.push_back("-"); }
  void turnAround() override { path.push_back("|"); }
  void pitchUp() override { path.push_back("^"); }
  void pitchDown() override { path.push_back("&"); }
  void rollLeft() override { path.push_back("\\"); }
  void rollRight() override { path.push_back("/"); }
  void increment() override { path.push_back("$"); }
  void decrement() override { path.push_back("!"); }
  void scaleUp() override { path.push_back(">"); }
  void scaleDown() override { path.push_back("<"); }
  void switchStyle() override { path.push_back("@"); }
  void save() override { path.push_back("["); }
  void restore() override { path.push_back("]"); }
  void say(const std::string &w) override { path.push_back(w); }
};

/// A 3d turtle whose state is recorded after every command, rounded; err is the largest rounding.
struct Walker : Turtle3d {
  std::string steps = "[";
  double err = 0;
  double unit = 1;
  Walker(double length, double width) { state_.length = length; state_.width = width; }
  long long round(double d) { double r = std::round(d); if (!(std::fabs(d - r) <= err)) err = std::fabs(d - r); return (long long) r; }
  std::string vec(const math::Vector3 &v) {
    return "[" + std::to_string(round(v.x)) + "," + std::to_string(round(v.y)) + "," + std::to_string(round(v.z)) + "]";
  }
  void rec(const std::string &c) {
    steps += (steps.size() > 1 ? ",{" : "{");
    steps += "\"c\":" + vj::quote(c) + ",\"p\":" + vec(state_.position) + ",\"d\":" + vec(state_.direction) + ",\"r\":" + vec(state_.right)
        + ",\"l\":" + std::to_string(round(state_.length)) + ",\"w\":" + std::to_string(round(state_.width))
        + ",\"x\":" + std::to_string(state_.texture) + "}";
  }
  void moveForward() override { Turtle3d::moveForward(); rec("F"); }
  void jumpForward() override { Turtle3d::jumpForward(); rec("G"); }
  void turnLeft() override { Turtle3d::turnLeft(); rec("+"); }
  void turnRight() override { Turtle3d::turnRight(); rec("-"); }
  void turnAround() override { Turtle3d::turnAround(); rec("|"); }
  void pitchUp() override { Turtle3d::pitchUp(); rec("^"); }
  void pitchDown() override { Turtle3d::pitchDown(); rec("&"); }
  void rollLeft() override { Turtle3d::rollLeft(); rec("\\"); }
  void rollRight() override { Turtle3d::rollRight(); rec("/"); }
  void increment() override { Turtle3d::increment(); rec("$"); }
  void decrement() override { Turtle3d::decrement(); rec("!"); }
  void scaleUp() override { Turtle3d::scaleUp(); rec(">"); }
  void scaleDown() override { Turtle3d::scaleDown(); rec("<"); }
  void switchStyle() override { Turtle3d::switchStyle(); rec("@"); }
  void save() override { Turtle3d::save(); rec("["); }
  void restore() override { Turtle3d::restore(); rec("]"); }
  void say(const std::string &w) override { rec(w); }
};

static void handle(const vj::Value &v, vj::Out &o) {
  const std::string &ev = v["ev"].s;

  if (ev == "ss.new") { fresh(); o.b("ok", true); return; }

  if (ev == "ss.tags") { o.b("ok", true); return; }
  if (ev == "ss.load") {
    int slot = v["slot"].i();
    styles.erase(slot);
    mkdirs(dir + "/sub");
    if (v.has("files")) for (const auto &f : v["files"].a) spit(dir + "/" + f[0].s, f[1].s);
    try {
      styles[slot].reset(new StyleProvider(MapCssParser(dir + "/").parse(v["sheet"].s), *table));
      o.b("ok", true);
      o.s("tag", styles[slot]->getTag());
    } catch (const std::exception &e) {
      styles.erase(slot);
      o.b("ok", false).s("why", e.what());
    }
    return;
  }
  if (ev == "ss.el") {
    auto e = probe(v["el"]);
    auto &s = *styles.at(v["slot"].i());
    auto style = s.forElement(*e, v["lod"].i());
    o.b("has", s.hasStyle(*e, v["lod"].i()));
    o.raw("decls", declsJson(style));
    o.ss("builders", sorted(style.getBuilders()));
    return;
  }
  if (ev == "ss.canvas") {
    auto style = styles.at(v["slot"].i())->forCanvas(v["lod"].i());
    o.raw("decls", declsJson(style));
    return;
  }
  if (ev == "ss.par") {
    // the same questions from several threads, again and again: every answer must be the first one
    auto &s = *styles.at(v["slot"].i());
    std::vector<std::shared_ptr<Element>> es;
    for (const auto &e : v["els"].a) es.push_back(probe(e));
    int lods = v["lods"].i(), rounds = v["rounds"].i();
    std::vector<std::string> grads;
    for (const auto &g : v["gradients"].a) grads.push_back(g.s);
    auto ask = [&](int k) {
      std::string r;
      for (int i = 0; i < lods; ++i) {
        int lod = 1 + (i + k) % lods;
        for (const auto &e : es) r += declsJson(s.forElement(*e, lod));
        r += declsJson(s.forCanvas(lod));
      }
      for (const auto &g : grads) r += colorJson(s.getGradient(g).evaluate(.5));
      return r;
    };
    std::vector<std::thread> ts;
    std::vector<std::vector<std::string>> got(v["threads"].i());
    std::atomic<int> ready(0);
    for (size_t t = 0; t < got.size(); ++t)
      ts.emplace_back([&, t]() {
        ++ready;
        while (ready < (int) got.size()) {}
        for (int r = 0; r < rounds; ++r) got[t].push_back(ask((int) t));
      });
    for (auto &t : ts) t.join();
    bool same = true;
    for (size_t t = 0; t < got.size(); ++t) {
      auto want = ask((int) t);
      for (const auto &g : got[t]) same = same && g == want;
    }
    o.b("same", same);
    return;
  }
  if (ev == "ss.value") {
    // a declared value read as a number, or as text
    auto e = probe(v["el"]);
    auto style = styles.at(v["slot"].i())->forElement(*e, v["lod"].i());
    const std::string &as = v["as"].s;
    try {
      if (as == "text") o.s("res", style.getString(v["k"].s));
      else if (as == "num") o.raw("res", number(style.getValue(v["k"].s)));
      else if (as == "rel") o.raw("res", number(style.getValue(v["k"].s, v["size"][0].n / v["size"][1].n)));
      else {
        double lat = v["lat"].n, h = v["h"].n;
        BoundingBox box(GeoCoordinate(lat - h / 2, 10), GeoCoordinate(lat + h / 2, 10 + h));
        double r = style.getValue(v["k"].s, box);
        if (as == "box") o.raw("res", number(r));
        else {  // metres: what the angle is worth on the ground, in thousandths
          double m = r * M_PI / 180 * earthRadius(box.center().latitude) * 1000;
          o.raw("res", std::fabs(m - std::round(m)) < 1e-3 ? number(std::round(m)) : "[0,0]");
        }
      }
    } catch (const std::exception &x) { o.s("res", std::string("refused")); }
    return;
  }
  if (ev == "gr.eval") {
    const ColorGradient *g = nullptr;
    std::unique_ptr<const ColorGradient> own;
    try {
      if (v.has("slot")) g = &styles.at(v["slot"].i())->getGradient(v["text"].s);
      else { own = utils::GradientUtils::parseGradient(v["text"].s); g = own.get(); }
    } catch (const MapCssException &) { o.s("res", "refused"); return; }
    std::string r = "[";
    for (const auto &t : v["times"].a) r += (r.size() > 1 ? "," : "") + colorJson(g->evaluate(t[0].n / t[1].n));
    o.raw("res", r + "]");
    return;
  }
  if (ev == "tx.get") {
    const auto &g = styles.at(v["slot"].i())->getTexture((std::uint16_t) v["index"].i(), v["group"].s);
    std::string r = "[";
    for (const auto &s : v["seeds"].a) {
      std::uint64_t seed = 0;
      for (const auto &d : s.a) seed = seed * 32768 + (std::uint64_t) d.ll();
      const auto &t = g.random(seed);
      r += (r.size() > 1 ? ",[" : "[") + std::to_string(t.atlasWidth) + "," + std::to_string(t.atlasHeight) + "," + std::to_string(t.x)
          + "," + std::to_string(t.y) + "," + std::to_string(t.width) + "," + std::to_string(t.height) + "]";
    }
    o.raw("res", r + "]");
    return;
  }
  if (ev == "ls.run") {
    // rewrites: what the turtle was told
    std::string r = "[";
    for (int i = 0; i < v["times"].i(); ++i) {
      Recorder t;
      if (v.has("slot")) t.run(styles.at(v["slot"].i())->getLsystem(v["name"].s));
      else t.run(LSystemParser().parse(v["text"].s));
      r += i ? ",[" : "[";
      for (size_t j = 0; j < t.path.size(); ++j) r += (j ? "," : "") + vj::quote(t.path[j]);
      r += "]";
    }
    o.raw("paths", r + "]");
    return;
  }
  if (ev == "ls.walk" || ev == "ls.bad") {
    Walker w(v["length"].n, v["width"].n);
    auto l = LSystemParser().parse(v["text"].s);
    w.run(l);
    o.raw("steps", w.steps + "]");
    o.b("exact", w.err < 1e-3);
    return;
  }
  throw std::runtime_error("unknown event " + ev);
}

int main() { return vj::loop(handle); }
