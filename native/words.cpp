// Bounded falsifier: classification of bare words, reading and writing of booleans, nullable types.
#include "common.h"
#include <memory>
static JS::Type kind(const std::string &w) { return w == "null" ? JS::Type::Null : w == "true" || w == "false" ? JS::Type::Bool : JS::Type::Ascii; }
static bool is_ident(const std::string &w) { for (unsigned char c : w) if (!(isalpha(c))) return false; return !w.empty(); }
static void tok(const std::string &w, const char *pre, const char *post, size_t cut, bool ascii) { g_cases++; std::string s = pre + w + post; JS::Tokenizer tk; tk.allowAsciiType(ascii);
  std::string a = s.substr(0, cut), b = s.substr(cut); std::vector<char> va(a.begin(), a.end()), vb(b.begin(), b.end()); va.reserve(a.size() + 1); vb.reserve(b.size() + 1);
  tk.addData(va.data(), va.size()); if (!b.empty()) tk.addData(vb.data(), vb.size());
  JS::Token t; JS::Error e = tk.nextToken(t); if (e != JS::Error::NoError) fail("no start token");
  e = tk.nextToken(t); std::string at = " word=" + esc(w) + " text=" + esc(s) + " cut=" + std::to_string(cut) + " ascii=" + std::to_string(ascii);
  JS::Type k = kind(w); bool named = *pre == '{';
  if (k == JS::Type::Ascii && !ascii && named) { if (e == JS::Error::NoError) fail("unknown bare word accepted" + at); return; }
  if (e != JS::Error::NoError) fail("bare word rejected, error " + std::to_string(int(e)) + at);
  if (t.value_type != k) fail("bare word delivered with type " + std::to_string(int(t.value_type)) + " expected " + std::to_string(int(k)) + at);
  if (std::string(t.value.data, t.value.size) != w) fail("bare word delivered with other bytes" + at); }
static void word(const std::string &w, Rng &r, bool cuts) { if (!is_ident(w)) return;
  for (bool as : {false, true}) { std::string s = "[" + w + "]"; tok(w, "[", "]", s.size(), as); tok(w, "{\"a\":", "}", w.size() + 6, as); tok(w, "[", ",1]", w.size() + 4, as); tok(w, "[", " ]", w.size() + 3, as);
    if (cuts) { for (size_t i = 1; i < s.size(); i++) tok(w, "[", "]", i, as); for (size_t i = 1; i < w.size() + 6; i++) tok(w, "{\"a\":", "}", i, as); } }
  (void)r; }
struct S { bool b; JS::NullableChecked<int> nc; JS::Nullable<int> n; std::unique_ptr<int> u; std::shared_ptr<int> sp; JS_OBJ(b, nc, n, u, sp); };
static void boolean(const std::string &w, bool quoted) { g_cases++; for (bool init : {false, true}) { std::string s = "{\"b\":" + (quoted ? "\"" + w + "\"" : w) + "}"; JS::ParseContext pc(s.data(), s.size()); pc.tokenizer.allowAsciiType(true); S v; v.b = init; JS::Error e = pc.parseTo(v);
  bool ok = w == "true" || w == "false"; if ((e == JS::Error::NoError) != ok) fail("boolean " + esc(s) + (ok ? " rejected" : " accepted")); if (ok && v.b != (w == "true")) fail("boolean value of " + esc(s)); if (!ok && v.b != init) fail("rejected boolean changed the target " + esc(s)); } }
static void nullable(const std::string &w, int val) { g_cases++; bool isnull = w == "null"; for (int pre = 0; pre < 2; pre++) { std::string at = " text=" + esc(w);
  auto parse = [&](const char *m, S &v) { v.b = false; v.nc.null = !pre; v.nc.data = 77; v.n.data = 78; if (pre) { v.u.reset(new int(79)); v.sp = std::make_shared<int>(80); } std::string s = std::string("{\"") + m + "\":" + w + "}"; JS::ParseContext pc(s.data(), s.size()); JS::Error e = pc.parseTo(v); if (e != JS::Error::NoError) fail("nullable member rejected " + esc(s)); };
  { S v; parse("nc", v); if (v.nc.null != isnull || (!isnull && v.nc.data != val)) fail("NullableChecked" + at); }
  { S v; parse("n", v); if (v.n.data != (isnull ? 78 : val)) fail("Nullable" + at); }
  { S v; parse("u", v); if (bool(v.u) == isnull || (!isnull && *v.u != val)) fail("unique_ptr" + at); if (!isnull != (JS::serializeStruct(v).find("\"u\": null") == std::string::npos)) fail("unique_ptr written" + at); }
  { S v; parse("sp", v); if (bool(v.sp) == isnull || (!isnull && *v.sp != val)) fail("shared_ptr" + at); if (!isnull != (JS::serializeStruct(v).find("\"sp\": null") == std::string::npos)) fail("shared_ptr written" + at); } } }
int main(int argc, char **argv) {
  Clock ck(arg_budget(argc, argv)); Rng r(arg_seed(argc, argv)); guard_install(unsigned(arg_budget(argc, argv)) + 60);
  const char *kw[] = {"null", "true", "false"};
  for (auto k : kw) { std::string w = k; word(w, r, true);
    for (size_t i = 0; i < w.size(); i++) for (int c = 1; c < 256; c++) { std::string v = w; v[i] = char(c); word(v, r, isalpha(c)); if (isalpha(c) || c == ' ' || c >= 128) boolean(v, true); if (isalpha(c)) boolean(v, false); }
    for (size_t i = 0; i <= w.size(); i++) for (int c = 'A'; c <= 'z'; c++) { std::string v = w; v.insert(i, 1, char(c)); word(v, r, true); if (isalpha(c)) boolean(v, false); }
    for (size_t i = 0; i < w.size(); i++) { std::string v = w; v.erase(i, 1); word(v, r, true); boolean(v, false); if (i) { word(w.substr(0, i), r, true); word(w.substr(i), r, true); } }
    std::string up = w; for (char &c : up) c = char(toupper(c)); word(up, r, true); boolean(up, false); word(w + w, r, true); for (auto k2 : kw) { word(w + k2, r, true); boolean(w + k2, false); } boolean(w, true); boolean(w, false); }
  for (const char *q : {"0", "1", "2", "\"\"", "01"}) { std::string w = q; if (w[0] == '"') boolean("", true); else boolean(w, false); }
  { S v; v.b = true; std::string o = JS::serializeStruct(v); if (o.find("\"b\": true") == std::string::npos) fail("true written as " + esc(o)); v.b = false; o = JS::serializeStruct(v); if (o.find("\"b\": false") == std::string::npos) fail("false written as " + esc(o)); }
  nullable("null", 0); for (int v : {0, 1, -5, 123456}) nullable(std::to_string(v), v);
  while (!ck.over()) { std::string w; int n = 1 + r.below(7); static const char al[] = "nultrefasNULTREFAS"; for (int i = 0; i < n; i++) w += al[r.below(sizeof al - 1)]; word(w, r, true); boolean(w, r.chance(50)); }
  done(); }
