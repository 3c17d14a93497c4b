// Drives the readers of OSM data: OsmDataVisitor directly, and the parsers of XML, PBF, JSON and shape files.
#include "vcommon.hpp"

#include "formats/osm/OsmDataVisitor.hpp"
#include "formats/osm/json/OsmJsonParser.hpp"
#include "formats/osm/pbf/OsmPbfParser.hpp"
#include "formats/osm/xml/OsmXmlParser.hpp"
#include "formats/shape/ShapeDataVisitor.hpp"
#include "formats/shape/ShapeParser.hpp"
#include "utils/ElementUtils.hpp"

#include "shapefile/shapefil.h"

using namespace utymap;
using namespace utymap::entities;
using namespace utymap::formats;
using vj::Out;
using vj::Value;

namespace {

std::unique_ptr<index::StringTable> table;

const std::uint32_t Ignore = std::numeric_limits<std::uint32_t>::max();

/// Elements as JSON; coordinates in units.
struct Tree : ElementVisitor {
  std::string r;
  double unit;
  bool exact = true;
  explicit Tree(double unit) : unit(unit) {}

  std::string num(double d) {
    if (!(std::abs(d / unit) < 2.1e9)) { exact = false; return "0"; }
    long long k = std::llround(d / unit);
    if (std::abs(d - k * unit) > 1e-9) exact = false;
    return std::to_string(k);
  }
  std::string pt(const GeoCoordinate &c) { return "[" + num(c.latitude) + "," + num(c.longitude) + "]"; }

  void head(const char *t, const Element &e) {
    Out o;
    r += "{\"t\":\"" + std::string(t) + "\",\"id\":\"" + std::to_string(e.id) + "\",\"tags\":[";
    int ign = 0, n = 0;
    bool found = true;
    for (const auto &tag : e.tags) {
      if (tag.key == Ignore) { ++ign; continue; }
      if (n++) r += ",";
      r += "[" + vj::quote(*table->getString(tag.key)) + "," + vj::quote(*table->getString(tag.value)) + "]";
      // a tag which is there is found
      if (!utils::hasTag(tag.key, tag.value, e.tags)) found = false;
    }
    if (ign && !utils::hasIgnore(e.tags)) found = false;
    r += "],\"ign\":" + std::string(ign ? "true" : "false") + ",\"found\":" + (found ? "true" : "false") + ",\"pts\":[";
  }
  void points(const std::vector<GeoCoordinate> &cs) {
    for (size_t i = 0; i < cs.size(); ++i) { if (i) r += ","; r += pt(cs[i]); }
    r += "],\"els\":[]}";
  }
  void visitNode(const Node &e) override { head("n", e); points({e.coordinate}); }
  void visitWay(const Way &e) override { head("w", e); points(e.coordinates); }
  void visitArea(const Area &e) override { head("a", e); points(e.coordinates); }
  void visitRelation(const Relation &e) override {
    head("r", e);
    r += "],\"els\":[";
    for (size_t i = 0; i < e.elements.size(); ++i) { if (i) r += ","; e.elements[i]->accept(*this); }
    r += "]}";
  }
};

struct Sink {
  Tree tree;
  int n = 0, limit;
  std::string r = "[";
  CancellationToken token;
  Sink(double unit, int limit) : tree(unit), limit(limit) { if (limit == 0) token.cancel(); }
  bool add(Element &e) {
    if (n++) r += ",";
    tree.r.clear();
    e.accept(tree);
    r += tree.r;
    if (n == limit) token.cancel();
    return true;
  }
  void done(Out &o) { o.raw("out", r + "]"); o.b("exact", tree.exact); }
};

Tags tagsOf(const Value &v) {
  Tags t;
  for (const auto &p : v.a) t.push_back(formats::Tag(p[0].s, p[1].s));
  return t;
}

std::uint64_t num(const Value &v) { return v.kind == Value::Str ? std::stoull(v.s) : (std::uint64_t) v.n; }

/// Calls the visitor itself.
void visit(const Value &op, Out &out) {
  double unit = op["unit"].n;
  Sink sink(unit, op.geti("cancel", -1));
  OsmDataVisitor v(*table, [&](Element &e) { return sink.add(e); }, sink.token);
  const Value &doc = op["doc"];
  for (const auto &n : doc["nodes"].a) {
    Tags t = tagsOf(n["tags"]);
    GeoCoordinate c(n["lat"].n * unit, n["lon"].n * unit);
    v.visitNode(num(n["id"]), c, t);
  }
  auto rels = [&] {
    for (const auto &x : doc["rels"].a) {
      Tags t = tagsOf(x["tags"]);
      RelationMembers ms;
      for (const auto &m : x["members"].a) {
        RelationMember k;
        k.type = m["t"].s; k.refId = num(m["ref"]); k.role = m["role"].s;
        ms.push_back(k);
      }
      v.visitRelation(num(x["id"]), ms, t);
    }
  };
  if (op.getb("relsFirst", false)) rels();
  for (const auto &w : doc["ways"].a) {
    Tags t = tagsOf(w["tags"]);
    std::vector<std::uint64_t> refs;
    for (const auto &x : w["refs"].a) refs.push_back(num(x));
    v.visitWay(num(w["id"]), refs, t);
  }
  if (!op.getb("relsFirst", false)) rels();
  v.complete();
  sink.done(out);
}

void writeShape(const std::string &path, const Value &op) {
  int type = op["type"].s == "point" ? SHPT_POINT : op["type"].s == "arc" ? SHPT_ARC : SHPT_POLYGON;
  if (op.getb("z", false)) type += 10;
  SHPHandle shp = SHPCreate(path.c_str(), type);
  DBFHandle dbf = DBFCreate(path.c_str());
  if (!shp || !dbf) throw std::runtime_error("cannot make the shape file");
  for (const auto &f : op["fields"].a)
    DBFAddField(dbf, f[0].s.c_str(), f[1].s == "s" ? FTString : f[1].s == "i" ? FTInteger : FTDouble, f[1].s == "s" ? 40 : 12, f[1].s == "d" ? 3 : 0);
  double unit = op["unit"].n;
  int k = 0;
  for (const auto &f : op["features"].a) {
    std::vector<double> x, y, z;
    std::vector<int> start;
    for (const auto &part : f["parts"].a) {
      start.push_back((int) x.size());
      for (const auto &p : part.a) { y.push_back(p[0].n * unit); x.push_back(p[1].n * unit); z.push_back(0); }
    }
    std::vector<int> kind(start.size(), SHPP_RING);
    SHPObject *o = SHPCreateObject(type, -1, (int) start.size(), start.data(), kind.data(), (int) x.size(), x.data(), y.data(), z.data(), nullptr);
    SHPWriteObject(shp, -1, o);
    SHPDestroyObject(o);
    for (size_t j = 0; j < f["_vals"].size(); ++j) {
      const Value &v = f["_vals"][j];
      const std::string &ft = op["fields"][j][1].s;
      if (v.kind == Value::Null) DBFWriteNULLAttribute(dbf, k, (int) j);
      else if (ft == "s") DBFWriteStringAttribute(dbf, k, (int) j, v.s.c_str());
      else if (ft == "i") DBFWriteIntegerAttribute(dbf, k, (int) j, v.i());
      else DBFWriteDoubleAttribute(dbf, k, (int) j, v.n);
    }
    ++k;
  }
  SHPClose(shp);
  DBFClose(dbf);
}

void parse(const Value &op, Out &out) {
  const std::string &f = op["format"].s;
  Sink sink(op["unit"].n, op.geti("cancel", -1));
  auto add = [&](Element &e) { return sink.add(e); };
  bool failed = false;
  try {
    if (f == "shape") {
      writeShape("shp", op);
      ShapeDataVisitor v(*table, add, sink.token);
      ShapeParser<ShapeDataVisitor>().parse("shp", v);
      v.complete();
    } else {
      std::istringstream in(op["_text"].s);
      OsmDataVisitor v(*table, add, sink.token);
      if (f == "xml") OsmXmlParser<OsmDataVisitor>().parse(in, v);
      else if (f == "pbf") OsmPbfParser<OsmDataVisitor>().parse(in, v);
      else { OsmJsonParser<OsmDataVisitor>(*table).parse(in, v); }
      v.complete();
    }
  } catch (const std::exception &e) {
    failed = true;
    out.s("why", std::string(e.what()).substr(0, 300));
  }
  sink.done(out);
  out.b("failed", failed);
}

void handle(const Value &op, Out &out) {
  const std::string &ev = op["ev"].s;
  if (!table) { vc::rmtree("st"); vc::mkdirs("st"); table.reset(new index::StringTable("st/")); }
  if (ev == "osm.visit") visit(op, out);
  else if (ev == "osm.parse") parse(op, out);
  else if (ev == "osm.damaged") { Out o; parse(op, o); out.b("failed", o.str().find("\"failed\":true") != std::string::npos); out.b("exact", true); }
  else throw std::runtime_error("unknown op " + ev);
}
}

int main() { return vj::loop(handle); }
