// Bounded falsifier: vectors, sets, maps and OneOrMany receive every element once, in order, and write them back.
#include "common.h"
#include <memory>
#include <algorithm>
struct Pt { int px = 0; std::string py; JS_OBJ(px, py); };
// element types: generate a text and the canonical form; show a value in canonical form
template <class T> struct El;
template <> struct El<int> { static std::string gen(Rng &r, std::string &w) { return w = std::to_string(int(r.below(40)) - 20); } static std::string show(int v) { return std::to_string(v); } };
template <> struct El<bool> { static std::string gen(Rng &r, std::string &w) { w = r.chance(50) ? "1" : "0"; return w == "1" ? "true" : "false"; } static std::string show(bool v) { return v ? "1" : "0"; } };
template <> struct El<std::string> { static std::string gen(Rng &r, std::string &w) { w.clear(); std::string t = "\""; int n = int(r.below(5)); for (int i = 0; i < n; i++) switch (r.below(7)) { case 6: w += '\0'; t += "\\u0000"; break; case 0: w += '"'; t += "\\\""; break; case 1: w += '\n'; t += "\\n"; break; case 2: w += "\xc3\xa9"; t += "\\u00e9"; break; case 3: w += '\\'; t += "\\\\"; break; default: w += char('a' + r.below(3)); t += w.back(); } return t + '"'; } static std::string show(const std::string &v) { return v; } };
template <> struct El<Pt> { static std::string gen(Rng &r, std::string &w) { int x = int(r.below(100)); std::string y, t = El<std::string>::gen(r, y); w = std::to_string(x) + "/" + y; return r.chance(50) ? "{\"px\":" + std::to_string(x) + ",\"py\":" + t + "}" : "{\"py\":" + t + " ,\"zz\":[{}], \"px\":" + std::to_string(x) + "}"; } static std::string show(const Pt &v) { return std::to_string(v.px) + "/" + v.py; } };
template <> struct El<std::unique_ptr<int>> { static std::string gen(Rng &r, std::string &w) { if (r.chance(30)) { w = "-"; return "null"; } return El<int>::gen(r, w); } static std::string show(const std::unique_ptr<int> &v) { return v ? std::to_string(*v) : "-"; } };
static int count_of(Rng &r) { switch (r.below(8)) { case 0: return 0; case 1: return 1; case 2: return 9 + int(r.below(4)); case 3: return 30 + int(r.below(40)); default: return int(r.below(6)); } }
template <class T> struct El<std::vector<T>> { static std::string gen(Rng &r, std::string &w) { std::string t = "["; int n = count_of(r); w = "("; for (int i = 0; i < n; i++) { std::string x; if (i) t += ','; gen_ws(r, t); t += El<T>::gen(r, x); gen_ws(r, t); w += x + ";"; } if (!n) gen_ws(r, t); w += ")"; return t + "]"; } static std::string show(const std::vector<T> &v) { std::string o = "("; for (auto &&x : v) o += El<T>::show(x) + ";"; return o + ")"; } };
template <class M> struct MapEl { typedef typename M::mapped_type T; static std::string gen(Rng &r, std::string &w) { std::string t = "{"; int n = count_of(r); std::map<std::string, std::string> m; for (int i = 0; i < n; i++) { std::string x, k; if (i) t += ','; gen_ws(r, t); t += El<std::string>::gen(r, k); if (k.empty()) { t.pop_back(); t += "q\""; k = "q"; } gen_ws(r, t); t += ':'; gen_ws(r, t); t += El<T>::gen(r, x); gen_ws(r, t); m[k] = x; } w = "{"; for (auto &p : m) w += p.first + ":" + p.second + ";"; w += "}"; return t + "}"; }
  static std::string show(const M &v) { std::map<std::string, std::string> m; for (auto &p : v) m[p.first] = El<T>::show(p.second); std::string w = "{"; for (auto &p : m) w += p.first + ":" + p.second + ";"; return w + "}"; } };
template <class T> struct El<std::map<std::string, T>> : MapEl<std::map<std::string, T>> {};
template <class T> struct El<std::unordered_map<std::string, T>> : MapEl<std::unordered_map<std::string, T>> {};
template <class S> struct SetEl { typedef typename S::value_type T; static bool dup; static std::string gen(Rng &r, std::string &w) { std::string t = "["; int n = count_of(r) % 14; std::set<std::string> m; int k = 0; bool allow = r.chance(20); for (int i = 0; i < n; i++) { std::string x, y = El<T>::gen(r, x); if (m.count(x) && !allow) continue; if (!m.insert(x).second) dup = true; if (k++) t += ','; gen_ws(r, t); t += y; } w = "<"; for (auto &x : m) w += x + ";"; w += ">"; return t + "]"; }
  static std::string show(const S &v) { std::set<std::string> m; for (auto &x : v) m.insert(El<T>::show(x)); std::string w = "<"; for (auto &x : m) w += x + ";"; return w + ">"; } };
template <class S> bool SetEl<S>::dup = false;
template <class T> struct El<std::set<T>> : SetEl<std::set<T>> {};
template <class T> struct El<std::unordered_set<T>> : SetEl<std::unordered_set<T>> {};
template <class T> struct El<JS::OneOrMany<T>> { static std::string gen(Rng &r, std::string &w) { if (r.chance(40)) { std::string x; std::string t = El<T>::gen(r, x); w = "(" + x + ";)"; return t; } std::string t = El<std::vector<T>>::gen(r, w); return t; } static std::string show(const JS::OneOrMany<T> &v) { return El<std::vector<T>>::show(v.data); } };
template <class A> struct Host { int before = -7; A a; int after = -7; JS_OBJ(before, a, after); };
template <class A> static bool took_dup() { return false; }
#define DUP(...) template <> bool took_dup<__VA_ARGS__>() { bool d = El<__VA_ARGS__>::dup; El<__VA_ARGS__>::dup = false; return d; }
DUP(std::set<int>) DUP(std::set<std::string>) DUP(std::unordered_set<int>) DUP(std::unordered_set<std::string>)
template <class A> static void check(const char *nm, Rng &r, bool keeps, bool emptyable = true) { g_cases++; std::string w, s0 = El<A>::gen(r, w); bool dup = took_dup<A>(); (void)emptyable;
  for (int member = s0[0] == '[' || s0[0] == '{' ? 0 : 1; member < 2; member++) { std::string s = member ? "{\"before\":1,\"a\":" + s0 + ",\"after\":2}" : s0; Host<A> h;
    if (!keeps && r.chance(40)) { std::string w2, s2 = El<A>::gen(r, w2); took_dup<A>(); if (s2[0] == '[' || s2[0] == '{') { JS::ParseContext c0(s2.data(), s2.size()); c0.parseTo(h.a); } }
    JS::ParseContext c; size_t cut = r.chance(50) ? s.size() : 1 + r.below(uint32_t(s.size())); std::string p1 = s.substr(0, cut), p2 = s.substr(std::min(cut, s.size())); c.tokenizer.addData(p1.data(), p1.size()); if (!p2.empty()) c.tokenizer.addData(p2.data(), p2.size());
    JS::Error e = member ? c.parseTo(h) : c.parseTo(h.a); std::string at = std::string(" ") + nm + " text=" + esc(s);
    if (dup) { if (e != JS::Error::DuplicateInSet) fail("duplicate not reported, error " + std::to_string(int(e)) + at); continue; }
    if (e != JS::Error::NoError) fail("error " + std::to_string(int(e)) + at); if (El<A>::show(h.a) != w) fail("read " + El<A>::show(h.a) + " expected " + w + at); if (member && (h.before != 1 || h.after != 2)) fail("other members" + at);
    Host<A> g; for (bool compact : {false, true}) { JS::SerializerOptions so; if (compact) so.setStyle(JS::SerializerOptions::Compact); std::string o = JS::serializeStruct(h, so); Host<A> g; JS::ParseContext c2(o.data(), o.size()); if (c2.parseTo(g) != JS::Error::NoError || El<A>::show(g.a) != w) fail("round trip: " + El<A>::show(g.a) + " expected " + w + " text " + esc(o)); if (g.before != h.before || g.after != h.after) fail("round trip of other members " + esc(o)); } }
  // a broken element is reported
  if (s0.size() > 2 && s0[0] == '[') { std::string s = s0; s.insert(s.size() - 1, s0.find_first_not_of("[ \t\r\n]") == std::string::npos ? "tru" : ",tru"); A a; JS::ParseContext c(s.data(), s.size()); JS::Error e = c.parseTo(a); std::string k = nm; if (e == JS::Error::NoError && k.find("string>") == std::string::npos) fail("bad element accepted " + k + " text=" + esc(s)); } }
// values of another kind are refused
template <class A> static void wrong(const char *nm, const char *text) { g_cases++; A a; JS::ParseContext c(text, strlen(text)); if (c.parseTo(a) == JS::Error::NoError) fail(std::string("accepted ") + text + " as " + nm); }
#define CK(k, ...) check<__VA_ARGS__>(#__VA_ARGS__, r, k)
int main(int argc, char **argv) {
  Clock ck(arg_budget(argc, argv)); Rng r(arg_seed(argc, argv)); guard_install(unsigned(arg_budget(argc, argv)) + 60);
  for (const char *t : {"{\"a\":1}", "5 ", "\"x\"", "null ", "true "}) { wrong<std::vector<int>>("vector", t); wrong<std::vector<bool>>("vector<bool>", t); wrong<std::set<int>>("set", t); wrong<std::vector<std::string>>("vector<string>", t); }
  for (const char *t : {"[1]", "5 ", "\"x\"", "null ", "true ", "[]"}) { wrong<std::map<std::string, int>>("map", t); wrong<std::unordered_map<std::string, std::string>>("unordered_map", t); }
  typedef std::map<std::string, int> MI; typedef std::vector<std::string> VS;
  while (!ck.over()) { CK(false, std::vector<int>); CK(false, std::vector<bool>); CK(false, std::vector<std::string>); CK(false, std::vector<Pt>); CK(false, std::vector<std::unique_ptr<int>>); CK(false, std::vector<std::vector<int>>); CK(false, std::vector<MI>); CK(true, std::map<std::string, int>); CK(true, std::map<std::string, Pt>); CK(true, std::map<std::string, VS>); CK(true, std::unordered_map<std::string, std::string>); CK(true, std::unordered_map<std::string, MI>);
    CK(false, std::set<int>); CK(false, std::set<std::string>); CK(false, std::unordered_set<int>); CK(false, std::unordered_set<std::string>); CK(true, JS::OneOrMany<int>); CK(true, JS::OneOrMany<std::string>); CK(true, JS::OneOrMany<Pt>); }
  done(); }
