// Bounded falsifier: JS::Map keeps every member, finds it by name, casts it like parsing its text, and setValue replaces exactly one member.
#include "common.h"
#include <memory>
#include <algorithm>
#include <csignal>
#include <unistd.h>
#include <sys/wait.h>
// a JSON value with its canonical form (compact, names and strings as decoded text in brackets)
struct V { int kind = 0; std::string scalar, text; std::vector<std::pair<std::string, V>> kids; };   // kind 0 number 1 string 2 bool 3 null 4 array 5 object; text: source text of a string or number
static std::string quote(Rng &r, const std::string &s) { std::string o = "\""; (void)r; unsigned h = unsigned(s.size()); for (char c : s) { h = h * 31 + (unsigned char)c; if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\"; else if (c == '\n') o += "\\n"; else if (h % 23 == 0 && c > 0) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static std::string word(Rng &r) { std::string s; int n = r.chance(5) ? 40 : 1 + int(r.below(3)); for (int i = 0; i < n; i++) s += r.chance(6) ? "\"\\\n{"[r.below(4)] : char('a' + r.below(4)); return s; }
static V gen(Rng &r, int depth, bool container = false) { V v; int k = container ? 4 + int(r.below(2)) : int(r.below(depth > 0 ? 9 : 4)); if (k > 5) k = 0; v.kind = k; std::set<std::string> used;
  switch (k) { case 0: v.scalar = std::to_string(int(r.below(2000)) - 1000); break; case 1: v.scalar = r.chance(10) ? "" : word(r); break; case 2: v.scalar = r.chance(50) ? "true" : "false"; break; case 3: v.scalar = "null"; break;
    case 4: for (int n = int(r.below(5)); n > 0; n--) v.kids.emplace_back("", gen(r, depth - 1)); break;
    default: for (int n = int(r.below(6)); n > 0; n--) { std::string w = word(r); if (used.insert(w).second) v.kids.emplace_back(w, gen(r, depth - 1)); } } return v; }
static void text(Rng &r, const V &v, std::string &o) { auto ws = [&] { if (r.chance(15)) gen_ws(r, o); };
  if (v.kind == 1) o += quote(r, v.scalar); else if (v.kind < 4) o += v.scalar; else { o += "[{"[v.kind - 4]; bool f = true; for (auto &k : v.kids) { if (!f) o += ','; f = false; ws(); if (v.kind == 5) { o += quote(r, k.first); ws(); o += ':'; ws(); } text(r, k.second, o); ws(); } if (f) ws(); o += "]}"[v.kind - 4]; } }
static std::string canon(const V &v) { if (v.kind == 1) return "<" + v.scalar + ">"; if (v.kind < 4) return v.scalar; std::string o(1, "[{"[v.kind - 4]); for (auto &k : v.kids) { if (v.kind == 5) o += "<" + k.first + ">:"; o += canon(k.second) + ","; } return o + "]}"[v.kind - 4]; }
static std::string decode(const JS::DataRef &d) { std::string o; for (size_t i = 0; i < d.size; i++) { char c = d.data[i]; if (c != '\\') { o += c; continue; } c = d.data[++i]; if (c == 'n') o += '\n'; else if (c == 'u') { o += char(strtol(std::string(d.data + i + 1, 4).c_str(), nullptr, 16)); i += 4; } else o += c; } return o; }
// canonical form of the next value of a tokenizer (token t is its first token)
static std::string canon(JS::Tokenizer &z, JS::Token t) { std::string s = decode(t.value);
  switch (t.value_type) { case JS::Type::String: return "<" + s + ">"; case JS::Type::ArrayStart: case JS::Type::ObjectStart: { bool obj = t.value_type == JS::Type::ObjectStart; std::string o = obj ? "{" : "["; for (;;) { if (z.nextToken(t) != JS::Error::NoError) return o + "ERROR"; if (t.value_type == (obj ? JS::Type::ObjectEnd : JS::Type::ArrayEnd)) break; if (obj) o += "<" + decode(t.name) + ">:"; o += canon(z, t) + ","; } return o + (obj ? "}" : "]"); } default: return std::string(t.value.data, t.value.size); } }
static std::string canon(const std::string &s) { JS::Tokenizer z; z.addData(s.data(), s.size()); JS::Token t; if (z.nextToken(t) != JS::Error::NoError) return "ERROR"; return canon(z, t); }
static std::string at;
static JS::Error first_nested(const JS::Map &m) { return m.tokens.data.empty() ? JS::Error::NeedMoreData : JS::Error::NoError; }
static void meta(const JS::Map &m) { auto f = JS::metaForTokens(m.tokens); if (f.size() != m.meta.size()) fail("number of meta entries " + std::to_string(m.meta.size()) + " expected " + std::to_string(f.size()) + at);
  for (size_t i = 0; i < f.size(); i++) { const JS::JsonMeta &a = f[i], &b = m.meta[i]; if (a.position != b.position || a.size != b.size || a.skip != b.skip || a.children != b.children || a.complex_children != b.complex_children || a.is_array != b.is_array) fail("meta entry " + std::to_string(i) + " stale" + at);
    // and against the tokens themselves
    int d = 0; size_t p = b.position, n = 0, open = 0, kids = 0, ck = 0; do { auto t = m.tokens.data[p + n].value_type; bool st = t == JS::Type::ArrayStart || t == JS::Type::ObjectStart, en = t == JS::Type::ArrayEnd || t == JS::Type::ObjectEnd; if (st) { open++; if (d == 1) { kids++; ck++; } d++; } else if (en) d--; else if (d == 1) kids++; n++; } while (d > 0);
    if (n != b.size || open != b.skip || kids != b.children || ck != b.complex_children) fail("meta entry " + std::to_string(i) + " wrong" + at); } }
template <class T> struct H { T m; JS_OBJ(m); };
template <class T> static void cast(Rng &r, const JS::Map &m, JS::ParseContext &pc, const std::string &name, const V &v) { (void)r; std::string s; { Rng q(1); text(q, v, s); } s = "{\"m\":" + s + "}";
  H<T> h; JS::ParseContext c(s.data(), s.size()); JS::Error want = c.parseTo(h); T t{}; JS::Error e = m.castToType(name, pc, t); T t2 = m.castTo<T>(name, pc);
  if ((want == JS::Error::NoError) != (e == JS::Error::NoError)) fail("cast of <" + esc(name) + "> gives error " + std::to_string(int(e)) + ", parsing its text " + std::to_string(int(want)) + at);
  if ((pc.error == JS::Error::NoError) != (want == JS::Error::NoError)) fail("castTo of <" + esc(name) + "> leaves error " + std::to_string(int(pc.error)) + at);
  if (want == JS::Error::NoError && (!(t == h.m) || !(t2 == h.m))) fail("cast of <" + esc(name) + "> gives another value" + at); }
struct S2 { int a = -1; std::vector<int> b; std::string ab; std::unique_ptr<int> c; JS_OBJ(a, b, ab, c); bool operator==(const S2 &o) const { return a == o.a && b == o.b && ab == o.ab; } };
static void check(Rng &r, const JS::Map &m, const V &v, int depth = 0) { JS::ParseContext pc; size_t i = 0; meta(m);
  for (auto it = m.begin(); it != m.end(); ++it, i++) { if (i >= v.kids.size()) fail("iteration delivers too many members" + at); if (decode(it->name) != v.kids[i].first) fail("iteration delivers another name <" + esc(decode(it->name)) + "> expected <" + esc(v.kids[i].first) + ">" + at); JS::Map c; if (m.castToType(it, pc, c) != JS::Error::NoError) fail("cast of a member to a map" + at);
    JS::SerializerOptions so; std::string o = JS::serializeStruct(v.kids[i].second.kind < 4 ? std::vector<JS::Map>{c} : std::vector<JS::Map>{c}, so); if (canon(o) != "[" + canon(v.kids[i].second) + ",]") fail("member <" + esc(v.kids[i].first) + "> is " + esc(canon(o)) + " expected " + esc(canon(v.kids[i].second)) + at); if (depth < 2 && v.kids[i].second.kind >= 4) check(r, c, v.kids[i].second, depth + 1); }
  if (i != v.kids.size()) fail("iteration stops early" + at); if (v.kind != 5) { int x; if (m.castToType("a", pc, x) != JS::Error::ExpectedObjectStart) fail("name looked up in an array" + at); return; }
  for (auto &k : v.kids) { auto it = m.find(k.first); if (it == m.end()) fail("<" + esc(k.first) + "> not found" + at); cast<int>(r, m, pc, k.first, k.second); cast<std::string>(r, m, pc, k.first, k.second); cast<std::vector<int>>(r, m, pc, k.first, k.second); cast<S2>(r, m, pc, k.first, k.second); cast<bool>(r, m, pc, k.first, k.second); cast<std::vector<std::string>>(r, m, pc, k.first, k.second); }
  // names that are not members: nested ones, prefixes, others
  std::vector<std::string> not_there = {word(r), word(r), "zz"}; for (auto &k : v.kids) { not_there.push_back(k.first + "x"); not_there.push_back(k.first.substr(1)); for (auto &n : k.second.kids) { not_there.push_back(n.first); for (auto &nn : n.second.kids) not_there.push_back(nn.first); } }
  for (auto &n : not_there) { bool there = false; for (auto &k : v.kids) there = there || k.first == n; if (there) continue; if (!(m.find(n) == m.end())) fail("found <" + esc(n) + ">" + at); int x = 0; if (m.castToType(n, pc, x) != JS::Error::KeyNotFound || pc.error != JS::Error::KeyNotFound) fail("cast of missing <" + esc(n) + ">" + at); }
  std::string o = JS::serializeStruct(m); if (canon(o) != canon(v)) fail("written " + esc(canon(o)) + " expected " + esc(canon(v)) + at); { JS::SerializerOptions so(JS::SerializerOptions::Compact); std::string o2 = JS::serializeStruct(m, so); if (canon(o2) != canon(v)) fail("written compact " + esc(o2) + " expected " + esc(canon(v)) + at); }
  // the whole map
  std::unordered_map<std::string, JS::Map> all; if (m.castToType(pc, all) != JS::Error::NoError || all.size() != v.kids.size()) fail("cast of the whole map" + at); (void)first_nested(m); }
template <class T> static void setv(JS::Map &m, const std::string &n, const T &t) { JS::ParseContext pc; if (m.setValue(n, pc, t) != JS::Error::NoError) fail("setValue" + at); }
static V num(int x) { V v; v.scalar = std::to_string(x); return v; } static V str(const std::string &s) { V v; v.kind = 1; v.scalar = s; return v; } static V arr(std::vector<V> k) { V v; v.kind = 4; for (auto &x : k) v.kids.emplace_back("", x); return v; } static V boo(bool b) { V v; v.kind = 2; v.scalar = b ? "true" : "false"; return v; }
struct P3 { int x = 1; std::vector<std::vector<int>> y; std::vector<std::string> z; JS_OBJ(x, y, z); };
static V setany(Rng &r, JS::Map &m, const std::string &n) { switch (r.below(6)) { case 0: { int x = int(r.below(100)); setv(m, n, x); return num(x); } case 1: { std::string s = word(r); setv(m, n, s); return str(s); } case 2: { bool b = r.chance(50); setv(m, n, b); return boo(b); }
    case 3: { std::vector<int> x; std::vector<V> k; for (int i = int(r.below(4)); i > 0; i--) { x.push_back(i); k.push_back(num(i)); } setv(m, n, x); return arr(k); }
    case 4: { P3 p; V o; o.kind = 5; std::vector<V> yy, zz; for (int i = int(r.below(3)); i > 0; i--) { p.y.push_back(std::vector<int>(size_t(i), i)); yy.push_back(arr(std::vector<V>(size_t(i), num(i)))); } for (int i = int(r.below(3)); i > 0; i--) { p.z.push_back(word(r)); zz.push_back(str(p.z.back())); } setv(m, n, p); o.kids = {{"x", num(1)}, {"y", arr(yy)}, {"z", arr(zz)}}; return o; }
    default: { JS::Map in; V o; o.kind = 5; for (int i = 0; i < int(r.below(3)); i++) { std::string w = word(r); bool dup = false; for (auto &k : o.kids) dup = dup || k.first == w; if (dup) continue; setv(in, w, i); o.kids.emplace_back(w, num(i)); } setv(m, n, in); return o; } } }
// recorded finding: a member cast to an owning raw-text type (the tokenizer has a token list and no buffer to copy from)
static void raw_cast() { const char *s = "{\"a\":{\"b\":1}}"; pid_t c = fork(); if (c == 0) { signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGALRM, SIG_DFL); alarm(20); close(1); close(2); JS::Map m; JS::ParseContext pc(s, strlen(s), m); JS::JsonObject o; JS::Error e = m.castToType("a", pc, o); _exit(e == JS::Error::NoError && o.data == "{\"b\":1}" ? 0 : 3); }
  int st = 0; waitpid(c, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { printf("KNOWN raw-cast: casting member a of the Map of {\"a\":{\"b\":1}} to JS::JsonObject does not give its text (crash)\n"); fflush(stdout); } }
int main(int argc, char **argv) {
  Clock ck(arg_budget(argc, argv)); Rng r(arg_seed(argc, argv)); guard_install(unsigned(arg_budget(argc, argv)) + 60);
  { JS::Map m; if (!(m.begin() == m.end()) || !(m.find("a") == m.end())) fail("empty map has members"); if (canon(JS::serializeStruct(m)) != "{}") fail("empty map written"); JS::ParseContext pc; int x = 0; if (m.castToType(pc, x) == JS::Error::NoError) fail("an empty map cast to a number"); }
  raw_cast();
  while (!ck.over()) { g_cases++; V v = gen(r, 3, true); std::string s; text(r, v, s); at = " text=" + esc(s); JS::Map m; bool fresh = r.chance(15); if (fresh) { v = V(); v.kind = 5; at = " (new map)"; } else { JS::ParseContext pc(s.data(), s.size(), m); if (pc.error != JS::Error::NoError) fail("error " + std::to_string(int(pc.error)) + at); check(r, m, v); }
    if (v.kind != 5) continue;
    for (int n = int(r.below(7)); n > 0; n--) { std::string w = r.chance(60) && !v.kids.empty() ? v.kids[r.below(uint32_t(v.kids.size()))].first : word(r); V x = setany(r, m, w); at += " then <" + esc(w) + ">=" + esc(canon(x)); for (size_t i = 0; i < v.kids.size(); i++) if (v.kids[i].first == w) { v.kids.erase(v.kids.begin() + long(i)); break; } v.kids.emplace_back(w, x); check(r, m, v); } }
  done(); }
