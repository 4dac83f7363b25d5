// Bounded falsifier: raw JSON capture (JsonObject, JsonArray, JsonObjectOrArray, the Ref types, JsonTokens).
#include "common.h"
#include <memory>
struct Own { int a = -1; JS::JsonObject o; int b = -1; JS::JsonArray r; JS::JsonObjectOrArray x; int c = -1; JS_OBJ(a, o, b, r, x, c); };
struct Ref { int a = -1; JS::JsonObjectRef o; int b = -1; JS::JsonArrayRef r; JS::JsonObjectOrArrayRef x; JS::JsonTokens t; int c = -1; JS_OBJ(a, o, b, r, x, t, c); };
static std::string str(const JS::DataRef &d) { return std::string(d.data, d.size); }
static std::string container(Rng &r, char k) { std::string o; int d = r.chance(10) ? 6 : int(r.below(4)); if (k == '?') k = r.chance(50) ? '{' : '[';
  o += k; int n = int(r.below(5)); for (int i = 0; i < n; i++) { if (i) o += ','; gen_ws(r, o); if (k == '{') { gen_str(r, o); gen_ws(r, o); o += ':'; gen_ws(r, o); } gen_val(r, o, d); gen_ws(r, o); } if (!n) gen_ws(r, o); o += k == '{' ? '}' : ']'; return o; }
static void feed(JS::ParseContext &c, const std::vector<std::string> &parts) { for (auto &p : parts) c.tokenizer.addData(p.data(), p.size()); }
// names that are empty are outside the property: replace them
static std::string named(std::string s) { for (size_t p; (p = s.find("\"\":")) != std::string::npos;) s.insert(p + 1, "n"); for (size_t p = 0; (p = s.find("\"\"", p)) != std::string::npos; p++) { size_t q = p + 2; while (q < s.size() && strchr(" \t\r\n", s[q])) q++; if (q < s.size() && s[q] == ':' && (p == 0 || s[p - 1] != '\\')) s.insert(p + 1, "n"); } return s; }
static void one(Rng &r) { g_cases++; std::string o = named(container(r, '{')), a = named(container(r, '[')), x = named(container(r, '?')), t = named(container(r, '?')); std::vector<std::string> ms = {"\"a\":1", "\"o\":" + o, "\"b\" : 2", "\"r\":  " + a, "\"x\" :" + x, "\"c\":3"}; bool own = r.chance(60); if (!own) ms.push_back("\"t\":" + t);
  for (size_t i = ms.size(); i > 1; i--) std::swap(ms[i - 1], ms[r.below(uint32_t(i))]); std::string s = "{"; for (size_t i = 0; i < ms.size(); i++) { if (i) s += ','; gen_ws(r, s); s += ms[i]; gen_ws(r, s); } s += '}';
  std::string at = " text=" + esc(s); JS::ParseContext c;
  if (own) { std::vector<std::string> parts; if (r.chance(30)) parts = {s}; else { int k = r.chance(20) ? 100000 : 1 + int(r.below(6)); size_t p = 0; while (p < s.size()) { size_t n = k > 1000 ? 1 : 1 + r.below(uint32_t(2 * s.size() / size_t(k) + 1)); n = std::min(n, s.size() - p); parts.push_back(s.substr(p, n)); p += n; } at += " cuts="; for (auto &p : parts) at += std::to_string(p.size()) + ","; } feed(c, parts);
    Own v; if (r.chance(25)) { v.o.data = "{\"old\":1}"; v.r.data = "[0]"; v.x.data = "{}"; at += " used target"; }
    JS::Error e = c.parseTo(v); if (e != JS::Error::NoError) fail("error " + std::to_string(int(e)) + at); if (v.o.data != o) fail("object captured as " + esc(v.o.data) + at); if (v.r.data != a) fail("array captured as " + esc(v.r.data) + at); if (v.x.data != x) fail("object or array captured as " + esc(v.x.data) + at); if (v.a != 1 || v.b != 2 || v.c != 3) fail("neighbouring members" + at);
    for (bool compact : {false, true}) { JS::SerializerOptions so; if (compact) so.setStyle(JS::SerializerOptions::Compact); std::string w = JS::serializeStruct(v, so); for (auto &q : {o, a, x}) if (w.find(q) == std::string::npos) fail("captured text not written back " + esc(w) + at); Own u; JS::ParseContext c2(w.data(), w.size()); if (c2.parseTo(u) != JS::Error::NoError || u.o.data != o || u.r.data != a || u.x.data != x || u.a != 1 || u.b != 2 || u.c != 3) fail("round trip " + esc(w) + at); } }
  else { feed(c, {s}); c.tokenizer.resetData(s.data(), s.size(), 0); Ref v; JS::Error e = c.parseTo(v); if (e != JS::Error::NoError) fail("error " + std::to_string(int(e)) + at); if (str(v.o.ref) != o) fail("object captured as " + esc(str(v.o.ref)) + at); if (str(v.r.ref) != a) fail("array captured as " + esc(str(v.r.ref)) + at); if (str(v.x.ref) != x) fail("object or array captured as " + esc(str(v.x.ref)) + at); if (v.a != 1 || v.b != 2 || v.c != 3) fail("neighbouring members" + at);
    // the captured tokens are the tokens of the text
    JS::Tokenizer tk; tk.addData(t.data(), t.size()); JS::Token q; size_t n = 0; int depth = 0; do { if (tk.nextToken(q) != JS::Error::NoError) fail("tokens" + at); if (n >= v.t.data.size() || v.t.data[n].value_type != q.value_type || str(v.t.data[n].value) != str(q.value) || (n && str(v.t.data[n].name) != str(q.name))) fail("captured token " + std::to_string(n) + at); n++; if (q.value_type == JS::Type::ArrayStart || q.value_type == JS::Type::ObjectStart) depth++; if (q.value_type == JS::Type::ArrayEnd || q.value_type == JS::Type::ObjectEnd) depth--; } while (depth); if (n != v.t.data.size()) fail("number of captured tokens" + at);
    std::string w = JS::serializeStruct(v); for (auto &q2 : {o, a, x}) if (w.find(q2) == std::string::npos) fail("captured text not written back " + esc(w) + at); } }
template <class T> static void kinds(const char *nm, const char *bad) { g_cases++; T v; JS::ParseContext c(bad, strlen(bad)); if (c.parseTo(v) == JS::Error::NoError) fail(std::string("accepted ") + bad + " as " + nm); }
// alone, repeated, in lists, cut short
static void lists(Rng &r) { g_cases++; std::vector<std::string> w; std::string s = "["; int n = int(r.below(5)); char k = "{[?"[r.below(3)]; for (int i = 0; i < n; i++) { if (i) s += ','; gen_ws(r, s); w.push_back(named(container(r, k))); s += w.back(); gen_ws(r, s); } s += ']'; size_t cut = r.below(uint32_t(s.size() + 1)); std::string p1 = s.substr(0, cut), p2 = s.substr(cut), at = " list text=" + esc(s) + " cut=" + std::to_string(cut);
  auto go = [&](auto v) { JS::ParseContext c; if (!p1.empty()) c.tokenizer.addData(p1.data(), p1.size()); if (!p2.empty()) c.tokenizer.addData(p2.data(), p2.size()); JS::Error e = c.parseTo(v); if (e != JS::Error::NoError) fail("error " + std::to_string(int(e)) + at); if (v.size() != w.size()) fail("count" + at); for (size_t i = 0; i < w.size(); i++) if (v[i].data != w[i]) fail("element " + std::to_string(i) + " captured as " + esc(v[i].data) + at);
    // a value that is cut short is an error
    if (!w.empty()) { std::string z = w[0].substr(0, w[0].size() - 1); typename std::decay<decltype(v[0])>::type q; JS::ParseContext c3(z.data(), z.size()); if (c3.parseTo(q) == JS::Error::NoError) fail("cut short value accepted " + esc(z)); } };
  if (k == '{') go(std::vector<JS::JsonObject>()); else if (k == '[') go(std::vector<JS::JsonArray>()); else go(std::vector<JS::JsonObjectOrArray>());
  for (auto &x : w) { std::string y = x + " "; if (x[0] == '{') { JS::JsonObject v; JS::ParseContext c(y.data(), y.size()); if (c.parseTo(v) != JS::Error::NoError || v.data != x) fail("object alone " + esc(x)); JS::JsonObjectRef u; JS::ParseContext c2(y.data(), y.size()); if (c2.parseTo(u) != JS::Error::NoError || str(u.ref) != x) fail("object alone " + esc(x)); } else { JS::JsonArray v; JS::ParseContext c(y.data(), y.size()); if (c.parseTo(v) != JS::Error::NoError || v.data != x) fail("array alone " + esc(x)); } } }
int main(int argc, char **argv) {
  Clock ck(arg_budget(argc, argv)); Rng r(arg_seed(argc, argv)); guard_install(unsigned(arg_budget(argc, argv)) + 60);
  for (auto t : {"[1]", "5 ", "null "}) { kinds<JS::JsonObject>("JsonObject", t); kinds<JS::JsonObjectRef>("JsonObjectRef", t); } for (auto t : {"{\"a\":1}", "5 ", "null "}) { kinds<JS::JsonArray>("JsonArray", t); kinds<JS::JsonArrayRef>("JsonArrayRef", t); } kinds<JS::JsonObjectOrArray>("JsonObjectOrArray", "5 "); kinds<JS::JsonObjectOrArrayRef>("JsonObjectOrArrayRef", "5 ");
  while (!ck.over()) { one(r); lists(r); }
  done(); }
