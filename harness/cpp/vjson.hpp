// Minimal JSON reader/writer for the drivers: one operation per line in, one answer per line out.
#ifndef VJSON_HPP
#define VJSON_HPP

#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace vj {

struct Value {
  enum Kind { Null, Bool, Num, Str, Arr, Obj } kind = Null;
  bool b = false;
  double n = 0;
  std::string s;
  std::vector<Value> a;
  std::vector<std::pair<std::string, Value>> o;

  const Value *find(const std::string &k) const {
    for (const auto &p : o) if (p.first == k) return &p.second;
    return nullptr;
  }
  const Value &operator[](const std::string &k) const {
    auto v = find(k);
    if (!v) throw std::runtime_error("missing field " + k);
    return *v;
  }
  bool has(const std::string &k) const { return find(k) != nullptr; }
  const Value &operator[](size_t i) const { return a.at(i); }
  size_t size() const { return kind == Obj ? o.size() : a.size(); }
  int i() const { return (int) n; }
  long long ll() const { return (long long) n; }
  const std::string &str() const { return s; }
  int geti(const std::string &k, int d) const { auto v = find(k); return v ? v->i() : d; }
  std::string gets(const std::string &k, const std::string &d) const { auto v = find(k); return v ? v->s : d; }
  bool getb(const std::string &k, bool d) const { auto v = find(k); return v ? v->b : d; }
};

class Parser {
  const char *p;
 public:
  explicit Parser(const std::string &t) : p(t.c_str()) {}
  Value parse() { ws(); return val(); }
 private:
  void ws() { while (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r') ++p; }
  static void utf8(std::string &r, unsigned c) {
    if (c < 0x100) r += (char) c;  // strings are byte strings, one character per byte
    else if (c < 0x800) { r += (char) (0xC0 | (c >> 6)); r += (char) (0x80 | (c & 63)); }
    else { r += (char) (0xE0 | (c >> 12)); r += (char) (0x80 | ((c >> 6) & 63)); r += (char) (0x80 | (c & 63)); }
  }
  std::string str() {
    std::string r;
    ++p;
    while (*p && *p != '"') {
      if (*p == '\\') {
        ++p;
        switch (*p) {
          case 'n': r += '\n'; break;
          case 't': r += '\t'; break;
          case 'r': r += '\r'; break;
          case 'b': r += '\b'; break;
          case 'f': r += '\f'; break;
          case 'u': { char h[5] = {p[1], p[2], p[3], p[4], 0}; utf8(r, (unsigned) strtoul(h, nullptr, 16)); p += 4; break; }
          default: r += *p;
        }
        ++p;
      } else r += *p++;
    }
    if (*p == '"') ++p;
    return r;
  }
  Value val() {
    Value v;
    ws();
    if (*p == '{') {
      v.kind = Value::Obj; ++p; ws();
      while (*p && *p != '}') {
        ws(); std::string k = str(); ws();
        if (*p == ':') ++p;
        v.o.emplace_back(k, val()); ws();
        if (*p == ',') ++p;
        ws();
      }
      ++p;
    } else if (*p == '[') {
      v.kind = Value::Arr; ++p; ws();
      while (*p && *p != ']') { v.a.push_back(val()); ws(); if (*p == ',') ++p; ws(); }
      ++p;
    } else if (*p == '"') { v.kind = Value::Str; v.s = str(); }
    else if (*p == 't') { v.kind = Value::Bool; v.b = true; p += 4; }
    else if (*p == 'f') { v.kind = Value::Bool; v.b = false; p += 5; }
    else if (*p == 'n') { p += 4; }
    else { char *e; v.kind = Value::Num; v.n = strtod(p, &e); if (e == p) throw std::runtime_error("bad json"); p = e; }
    return v;
  }
};

inline std::string quote(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char) c;
  }
  return r + "\"";
}

/// Builds one JSON object.
class Out {
  std::string r = "{";
  void key(const std::string &k) { if (r.size() > 1) r += ","; r += quote(k) + ":"; }
 public:
  Out &s(const std::string &k, const std::string &v) { key(k); r += quote(v); return *this; }
  Out &i(const std::string &k, long long v) { key(k); r += std::to_string(v); return *this; }
  Out &b(const std::string &k, bool v) { key(k); r += v ? "true" : "false"; return *this; }
  Out &raw(const std::string &k, const std::string &v) { key(k); r += v; return *this; }
  Out &ss(const std::string &k, const std::vector<std::string> &v) {
    key(k); r += "[";
    for (size_t j = 0; j < v.size(); ++j) { if (j) r += ","; r += quote(v[j]); }
    r += "]"; return *this;
  }
  Out &is(const std::string &k, const std::vector<long long> &v) {
    key(k); r += "[";
    for (size_t j = 0; j < v.size(); ++j) { if (j) r += ","; r += std::to_string(v[j]); }
    r += "]"; return *this;
  }
  std::string str() const { return r + "}"; }
};

/// Reads operations from stdin, answers on the original stdout; whatever the code under test prints on
/// std::cout goes to stderr.
inline int loop(const std::function<void(const Value &, Out &)> &handler) {
  FILE *out = fdopen(dup(1), "w");
  dup2(2, 1);
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    Out o;
    Value v = Parser(line).parse();
    try {
      handler(v, o);
    } catch (const std::exception &e) {
      o = Out();
      o.s("error", e.what());
    }
    fprintf(out, "%s\n", o.str().c_str());
    fflush(out);
  }
  fflush(out);
  return 0;
}

}
#endif
