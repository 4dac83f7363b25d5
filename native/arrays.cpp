// Bounded falsifier: fixed-size targets (T[N], std::array, std::tuple, JS::Tuple, ArrayVariableContent) with too few, exactly as many
// and too many elements, alone, as a member between other members and as an element of a vector.
#include "common.h"
#include <memory>
#include <optional>
struct Pt { int px = 0; int py = 0; JS_OBJ(px, py); };
template <class T> struct El;
template <> struct El<int> { static std::string gen(Rng &r, std::string &w) { return w = std::to_string(int(r.below(2000)) - 1000); } static std::string show(int v) { return std::to_string(v); } };
template <> struct El<bool> { static std::string gen(Rng &r, std::string &w) { w = r.chance(50) ? "1" : "0"; return w == "1" ? "true" : "false"; } static std::string show(bool v) { return v ? "1" : "0"; } };
template <> struct El<std::string> { static std::string gen(Rng &r, std::string &w) { static const char *p[] = {"", "]", "[", "x", "null", "a longer string than the small buffer", "]]"}; w = p[r.below(7)]; return '"' + w + '"'; } static std::string show(const std::string &v) { return v; } };
template <> struct El<JS::Optional<int>> { static std::string gen(Rng &r, std::string &w) { return El<int>::gen(r, w); } static std::string show(const JS::Optional<int> &v) { return std::to_string(v.data); } };
template <> struct El<std::unique_ptr<int>> { static std::string gen(Rng &r, std::string &w) { if (r.chance(30)) { w = "-"; return "null"; } return El<int>::gen(r, w); } static std::string show(const std::unique_ptr<int> &v) { return v ? std::to_string(*v) : "-"; } };
template <> struct El<JS::Nullable<std::string>> { static std::string gen(Rng &r, std::string &w) { return El<std::string>::gen(r, w); } static std::string show(const JS::Nullable<std::string> &v) { return v.data; } };
template <> struct El<std::optional<std::string>> { static std::string gen(Rng &r, std::string &w) { return El<std::string>::gen(r, w); } static std::string show(const std::optional<std::string> &v) { return v ? *v : std::string("-"); } };
template <> struct El<double> { static std::string gen(Rng &r, std::string &w) { int x = int(r.below(100)); w = std::to_string(double(x)); return std::to_string(x) + ".0"; } static std::string show(double v) { return std::to_string(v); } };
template <> struct El<Pt> { static std::string gen(Rng &r, std::string &w) { int x = int(r.below(100)); w = std::to_string(x) + "/" + std::to_string(x + 1); return "{\"py\":" + std::to_string(x + 1) + ",\"px\":" + std::to_string(x) + "}"; } static std::string show(const Pt &v) { return std::to_string(v.px) + "/" + std::to_string(v.py); } };
template <> struct El<std::vector<int>> { static std::string gen(Rng &r, std::string &w) { std::string t = "["; int n = int(r.below(4)); w.clear(); for (int i = 0; i < n; i++) { std::string x; t += (i ? "," : "") + El<int>::gen(r, x); w += x + ";"; } return t + "]"; } static std::string show(const std::vector<int> &v) { std::string o; for (int x : v) o += std::to_string(x) + ";"; return o; } };
template <> struct El<std::array<std::string, 2>> { static std::string gen(Rng &r, std::string &w) { std::string a, b; std::string t = "[" + El<std::string>::gen(r, a); t += "," + El<std::string>::gen(r, b) + "]"; w = a + "," + b; return t; } static std::string show(const std::array<std::string, 2> &v) { return v[0] + "," + v[1]; } };
template <> struct El<JS::JsonArrayRef> { static std::string gen(Rng &r, std::string &w) { return w = r.chance(50) ? "[1,[2]]" : "[]"; } static std::string show(const JS::JsonArrayRef &v) { return std::string(v.ref.data, v.ref.size); } };
template <> struct El<JS::JsonObjectOrArrayRef> { static std::string gen(Rng &r, std::string &w) { return w = r.chance(50) ? "[1,[2]]" : "{\"a\":[]}"; } static std::string show(const JS::JsonObjectOrArrayRef &v) { return std::string(v.ref.data, v.ref.size); } };
template <> struct El<JS::JsonTokens> { static std::string gen(Rng &r, std::string &w) { w = std::to_string(r.below(9)); return "[" + w + "]"; } static std::string show(const JS::JsonTokens &v) { return v.data.size() == 3 ? std::string(v.data[1].value.data, v.data[1].value.size) : "?" + std::to_string(v.data.size()); } };
// a target: number of elements it takes, the texts of its elements
template <class T, size_t N> struct Raw { T a[N]; };
template <class A> struct Tg;
template <class T, size_t N> struct Tg<T[N]> { static const size_t n = N; static const bool var = false; static std::string gen(Rng &r, size_t, std::string &w) { return El<T>::gen(r, w); } static std::string show(const T (&v)[N], size_t i) { return El<T>::show(v[i]); } static size_t size(const T (&)[N]) { return N; } };
template <class T, size_t N> struct Tg<std::array<T, N>> { static const size_t n = N; static const bool var = false; static std::string gen(Rng &r, size_t, std::string &w) { return El<T>::gen(r, w); } static std::string show(const std::array<T, N> &v, size_t i) { return El<T>::show(v[i]); } static size_t size(const std::array<T, N> &) { return N; } };
template <class T, size_t N> struct Tg<JS::ArrayVariableContent<T, N>> { static const size_t n = N; static const bool var = true; static std::string gen(Rng &r, size_t, std::string &w) { return El<T>::gen(r, w); } static std::string show(const JS::ArrayVariableContent<T, N> &v, size_t i) { return El<T>::show(v.data[i]); } static size_t size(const JS::ArrayVariableContent<T, N> &v) { return v.size; } };
template <class A, class B, class C> struct Tg<std::tuple<A, B, C>> { static const size_t n = 3; static const bool var = false; static std::string gen(Rng &r, size_t i, std::string &w) { return i == 0 ? El<A>::gen(r, w) : i == 1 ? El<B>::gen(r, w) : El<C>::gen(r, w); }
  static std::string show(const std::tuple<A, B, C> &v, size_t i) { return i == 0 ? El<A>::show(std::get<0>(v)) : i == 1 ? El<B>::show(std::get<1>(v)) : El<C>::show(std::get<2>(v)); } static size_t size(const std::tuple<A, B, C> &) { return 3; } };
template <class A, class B, class C> struct Tg<JS::Tuple<A, B, C>> { static const size_t n = 3; static const bool var = false; static std::string gen(Rng &r, size_t i, std::string &w) { return i == 0 ? El<A>::gen(r, w) : i == 1 ? El<B>::gen(r, w) : El<C>::gen(r, w); }
  static std::string show(const JS::Tuple<A, B, C> &v, size_t i) { return i == 0 ? El<A>::show(v.template get<0>()) : i == 1 ? El<B>::show(v.template get<1>()) : El<C>::show(v.template get<2>()); } static size_t size(const JS::Tuple<A, B, C> &) { return 3; } };
template <class A> struct Host { int before = -7; A a; int after = -7; JS_OBJ(before, a, after); };
template <class A> struct VHost { std::vector<A> v; };
template <class A, class F> static void check(const char *nm, Rng &r, F parse) { g_cases++; using T = Tg<A>;
  size_t n = r.chance(50) ? T::n : r.below(uint32_t(T::n + 4)); std::string s = "["; std::vector<std::string> w(n);
  for (size_t i = 0; i < n; i++) { if (i) s += ','; gen_ws(r, s); s += T::gen(r, i < T::n ? i : r.below(uint32_t(T::n)), w[i]); gen_ws(r, s); } gen_ws(r, s); s += ']';
  bool good = T::var ? n <= T::n : n == T::n; parse(nm, s, w, good); }
template <class A> static void top(const char *nm, Rng &r) { check<A>(nm, r, [&](const char *nm, const std::string &s, const std::vector<std::string> &w, bool good) {
    std::unique_ptr<Host<A>> h(new Host<A>()); JS::ParseContext c(s.data(), s.size()); JS::Error e = c.parseTo(h->a); std::string at = std::string(" ") + nm + " text=" + esc(s);
    if (h->before != -7 || h->after != -7) fail("written outside the target" + at);
    if (!good && e == JS::Error::NoError) fail("wrong number of elements accepted" + at); if (good && e != JS::Error::NoError) fail("error " + std::to_string(int(e)) + at);
    if (good) { if (Tg<A>::var && Tg<A>::size(h->a) != w.size()) fail("size" + at); for (size_t i = 0; i < w.size(); i++) if (Tg<A>::show(h->a, i) != w[i]) fail("element " + std::to_string(i) + " is " + Tg<A>::show(h->a, i) + " expected " + w[i] + at);
      std::string o = JS::serializeStruct(h->a); Host<A> g; JS::ParseContext c2(o.data(), o.size()); if (c2.parseTo(g.a) != JS::Error::NoError) fail("written value does not parse " + esc(o) + at); if (Tg<A>::size(g.a) != Tg<A>::size(h->a)) fail("round trip size" + at); for (size_t i = 0; i < w.size(); i++) if (Tg<A>::show(g.a, i) != w[i]) fail("round trip of element " + std::to_string(i) + " " + esc(o)); } }); 
  check<A>(nm, r, [&](const char *nm, const std::string &s0, const std::vector<std::string> &w, bool good) { std::string s = "{\"before\":1,\"a\":" + s0 + ",\"after\":2}"; std::unique_ptr<Host<A>> h(new Host<A>());
    JS::ParseContext c; size_t cut = r.below(uint32_t(s.size())); std::string p1 = s.substr(0, cut), p2 = s.substr(cut); if (cut) c.tokenizer.addData(p1.data(), p1.size()); c.tokenizer.addData(p2.data(), p2.size()); JS::Error e = c.parseTo(*h); std::string at = std::string(" ") + nm + " text=" + esc(s);
    if (h->before != 1) fail("member before" + at); if (!good && e == JS::Error::NoError) fail("wrong number of elements accepted" + at); if (good && e != JS::Error::NoError) fail("error " + std::to_string(int(e)) + at); if (h->after != (good ? 2 : -7)) fail("member after" + at);
    if (good && Tg<A>::size(h->a) != (Tg<A>::var ? w.size() : Tg<A>::n)) fail("size" + at); }); }
template <class A> static void both(const char *nm, Rng &r) { top<A>(nm, r); }
// the target as an element: a list of targets, one of which has the wrong number of elements
template <class A> static void list(const char *nm, Rng &r) { g_cases++; size_t k = 1 + r.below(3); std::string s = "["; bool good = true; std::vector<std::vector<std::string>> w(k);
  for (size_t j = 0; j < k; j++) { if (j) s += ','; check<A>(nm, r, [&](const char *, const std::string &x, const std::vector<std::string> &v, bool g) { s += x; w[j] = v; good = good && g; }); } s += ']'; static const char *tails[] = {"", "]", "]]", " 1", "}"}; if (!good) s += tails[r.below(5)];
  std::vector<A> v; JS::ParseContext c(s.data(), s.size()); JS::Error e = c.parseTo(v); std::string at = std::string(" list of ") + nm + " text=" + esc(s);
  if (good != (e == JS::Error::NoError)) fail(good ? "error " + std::to_string(int(e)) + at : "wrong number of elements accepted" + at);
  if (good) { if (v.size() != k) fail("number of targets" + at); for (size_t j = 0; j < k; j++) { for (size_t i = 0; i < w[j].size(); i++) if (Tg<A>::show(v[j], i) != w[j][i]) fail("element" + at); } } }
#define BOTH(...) both<__VA_ARGS__>(#__VA_ARGS__, r)
#define LIST(...) do { both<__VA_ARGS__>(#__VA_ARGS__, r); list<__VA_ARGS__>(#__VA_ARGS__, r); } while (0)
#define ALL(T) do { BOTH(T[3]); BOTH(T[1]); LIST(std::array<T, 3>); LIST(std::array<T, 1>); LIST(JS::ArrayVariableContent<T, 3>); LIST(JS::ArrayVariableContent<T, 1>); } while (0)
typedef std::array<std::string, 2> A2;
int main(int argc, char **argv) {
  Clock ck(arg_budget(argc, argv)); Rng r(arg_seed(argc, argv)); guard_install(unsigned(arg_budget(argc, argv)) + 60);
  while (!ck.over()) { ALL(int); ALL(bool); ALL(std::string); ALL(JS::Optional<int>); ALL(std::unique_ptr<int>); ALL(JS::Nullable<std::string>); ALL(std::optional<std::string>); ALL(double); ALL(Pt); ALL(std::vector<int>); ALL(A2); ALL(JS::JsonArrayRef); ALL(JS::JsonObjectOrArrayRef); ALL(JS::JsonTokens);
    LIST(std::tuple<int, std::string, bool>); LIST(JS::Tuple<int, std::string, bool>); LIST(std::tuple<std::string, Pt, std::string>); LIST(JS::Tuple<std::string, std::vector<int>, std::string>); LIST(std::tuple<A2, bool, JS::JsonArrayRef>); LIST(std::tuple<std::unique_ptr<int>, double, JS::Optional<int>>); }
  done(); }
