// Bounded falsifier for floating point reading and writing (P16); oracle: the C library's correctly rounded strtod/strtof and bit equality.
#include "common.h"
#include <cmath>
#include "midpoints.inc"
static Guard *G;
template <class T> struct Tr; template <> struct Tr<double> { using U = uint64_t; static constexpr const char *n = "double"; static constexpr int m = 52, e = 11; static double ref(const char *s) { return strtod(s, nullptr); } };
template <> struct Tr<float> { using U = uint32_t; static constexpr const char *n = "float"; static constexpr int m = 23, e = 8; static float ref(const char *s) { return strtof(s, nullptr); } };
template <class T> static typename Tr<T>::U bits(T v) { typename Tr<T>::U u; memcpy(&u, &v, sizeof u); return u; }
template <class T> static T from(typename Tr<T>::U u) { T v; memcpy(&v, &u, sizeof v); return v; }
template <class T> static std::string hex(T v) { char b[64]; snprintf(b, sizeof b, "%.17g (bits %llx)", double(v), (unsigned long long)bits(v)); return b; }
static bool number(const std::string &s) { size_t i = 0; auto dig = [&] { size_t k = i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') i++; return i - k; };
  if (i < s.size() && s[i] == '-') i++; size_t k = i; size_t n = dig(); if (!n || (n > 1 && s[k] == '0')) return false;
  if (i < s.size() && s[i] == '.') { i++; if (!dig()) return false; }
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { i++; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; if (!dig()) return false; }
  return i == s.size(); }
template <class T> static JS::Error rd(const std::string &t, T &v) { JS::ParseContext pc; pc.token.value = JS::DataRef(G->at_end(t), t.size()); pc.token.value_type = JS::Type::Number; return JS::TypeHandler<T>::to(v, pc); }
template <class T> static std::string wr(T v) { char b[64]; JS::Serializer z(b, sizeof b); z.setOptions(JS::SerializerOptions(JS::SerializerOptions::Compact)); JS::Token t; t.name = JS::DataRef("", size_t(0)); JS::TypeHandler<T>::from(v, t, z); return std::string(b, z.currentBuffer().used); }
template <class T> static void rt(typename Tr<T>::U u) { g_cases++; T v = from<T>(u); g_now = std::string("write ") + Tr<T>::n + " " + std::to_string((unsigned long long)u);
  std::string o = wr(v);
  if (!std::isfinite(v)) { if (o != "null") fail(std::string("writing non-finite ") + Tr<T>::n + " " + hex(v) + " gives " + esc(o)); return; }
  if (!number(o)) fail(std::string("writing ") + Tr<T>::n + " " + hex(v) + " gives " + esc(o) + ", which is not a JSON number");
  T b = T(77); if (rd(o, b) != JS::Error::NoError) fail(std::string("reading back ") + Tr<T>::n + " text " + o + " reports an error");
  if (bits(b) != bits(v)) fail(std::string(Tr<T>::n) + " " + hex(v) + " is written as " + o + ", which reads back as " + hex(b));
  T s = Tr<T>::ref(o.c_str()); if (bits(s) != bits(v)) fail(std::string(Tr<T>::n) + " " + hex(v) + " is written as " + o + ", whose nearest value is " + hex(s)); }
template <class T> static void txt(const std::string &t) { g_cases++; g_now = std::string("read ") + Tr<T>::n + " " + t; T b = T(77);
  if (rd(t, b) != JS::Error::NoError) fail(std::string("reading ") + t.substr(0, 200) + " into " + Tr<T>::n + " reports an error");
  T s = Tr<T>::ref(t.c_str()); if (bits(b) != bits(s)) fail(std::string("reading ") + t.substr(0, 200) + " into " + Tr<T>::n + " gives " + hex(b) + ", the nearest value is " + hex(s)); }
static void both(const std::string &t) { txt<double>(t); txt<float>(t); }
template <class T> static void corners(Rng &r, Clock &ck) { using U = typename Tr<T>::U; const int m = Tr<T>::m; const U mm = (U(1) << m) - 1;
  for (int e = 0; e < (1 << Tr<T>::e); e++) for (int s = 0; s < 2; s++) { U h = (U(s) << (m + Tr<T>::e)) | (U(e) << m);
    for (U x : {U(0), U(1), U(2), U(3), mm, U(mm - 1), U(mm >> 1), U((mm >> 1) + 1)}) rt<T>(h | x);
    for (int b = 0; b < m; b += 5) { rt<T>(h | (U(1) << b)); rt<T>(h | (mm >> b)); rt<T>(h | (mm & ~(mm >> b))); }
    for (int i = 0; i < 4; i++) rt<T>(h | (U(r.next()) & mm)); } }
static std::string digits(Rng &r, int n) { std::string s; int st = r.below(4); for (int i = 0; i < n; i++) s += st == 0 ? "09"[r.below(2)] : st == 1 ? (i == 0 || i == n - 1 ? char('1' + r.below(9)) : '0') : char('0' + r.below(10)); return s; }
int main(int argc, char **argv) { Clock ck(arg_budget(argc, argv)); Rng r(arg_seed(argc, argv)); guard_install(unsigned(arg_budget(argc, argv) * 4 + 100)); G = new Guard(1 << 17);
  corners<float>(r, ck); corners<double>(r, ck);
  // values next to a midpoint that is itself a short decimal: an odd multiple of a power of five, scaled by every power of two
  { uint64_t p5 = 1; for (int j = 0; j <= 23; j++, p5 *= 5) { uint64_t lo = ((1ull << 53) + p5 - 1) / p5, hi = (1ull << 54) / p5; for (int t = 0; t < 24; t++) { uint64_t k = (hi - lo < 24 ? lo + t : lo + r.next() % (hi - lo)) | 1; uint64_t o = k * p5; if (o < (1ull << 53) || o >= (1ull << 54)) continue; uint64_t m = o >> 1; for (int e = t & 7; e < 971; e += hi - lo < 24 ? 1 : 8) { rt<double>(bits(std::ldexp(double(m), e))); rt<double>(bits(std::ldexp(double(m + 1), e))); } } }
    p5 = 1; for (int j = 0; j <= 10; j++, p5 *= 5) { uint64_t lo = ((1ull << 24) + p5 - 1) / p5, hi = (1ull << 25) / p5; for (int t = 0; t < 24; t++) { uint64_t k = (hi - lo < 24 ? lo + t : lo + r.next() % (hi - lo)) | 1; uint64_t o = k * p5; if (o < (1ull << 24) || o >= (1ull << 25)) continue; uint64_t m = o >> 1; for (int e = 0; e < 104; e++) { rt<float>(bits(std::ldexp(float(m), e))); rt<float>(bits(std::ldexp(float(m + 1), e))); } } } }
  for (const char *t : MID_D) { txt<double>(t); txt<float>(t); if (ck.over()) break; }
  for (const char *t : MID_F) { txt<float>(t); txt<double>(t); txt<float>(std::string("-") + t); }
  // short texts: all significands up to 999 with every exponent
  for (int e = -400; e <= 400; e++) for (int s = 0; s <= 999; s += (e < -330 || e > 312 || (s > 99)) ? 37 : 1) both(std::to_string(s) + "e" + std::to_string(e));
  for (const char *t : {"0", "-0", "0.0", "-0.0", "0e999999999", "1e999999999999999999999", "-1e999999999999999999999", "1e-999999999999999999999", "-1e-99999999999999", "2.2250738585072011e-308", "2.2250738585072014e-308", "1.7976931348623157e308", "1.7976931348623158e308", "1.797693134862315808e308", "4.9406564584124654e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "9007199254740993", "9007199254740992.5", "9007199254740993e0", "18014398509481985", "3.4028235677973366e38", "3.4028235677973365e38", "1.401298464324817e-45", "7.006492321624085e-46", "7.0064923216240854e-46", "16777217", "16777219", "33554433", "0.1", "0.2", "0.3", "1E5", "1e+5", "1E-5"}) both(t);
  for (int z : {1, 2, 15, 16, 17, 18, 19, 20, 21, 25, 40, 100, 308, 330, 1000}) { std::string o(z, '0'); for (const char *d : {"1", "17", "123456789", "8392591456304476166"}) { both(o + d); both("-" + o + d); both(o + d + ".5"); both("0." + o + d); both("0." + o + d + "e" + std::to_string(z)); both(std::string(d) + "e" + o + "7"); both(std::string(d) + "e-" + o + "7"); both(std::string(d) + "." + o); both(o + d + "e-" + std::to_string(z)); } }
  for (int n = 1; n <= 19; n++) { std::string d = std::string("1234567890987654321").substr(0, n); for (int z = 0; z <= 330; z += n > 12 ? 1 : 13) both(d + std::string(z, '0')); both(std::string(n, '9')); both("0." + std::string(n, '9')); }
  uint32_t fb = uint32_t(r.next());
  while (!ck.over()) for (int i = 0; i < 200; i++) {
    rt<float>(fb); fb += 0x9E3779B1u; rt<double>(r.next()); rt<double>(bits(double(int64_t(r.next() >> r.below(64))) / double(uint64_t(1) << r.below(60)))); { double p = std::pow(10.0, double(r.below(30)) - 15); rt<double>(bits(std::round(double(r.below(100000))) * p)); rt<float>(bits(float(r.below(100000)) * float(p))); }
    int n = 1 + r.below(19); std::string s = digits(r, n); if (r.chance(50)) s.insert(1 + r.below(n), "."); if (s.back() == '.') s += r.chance(50) ? "0" : "00"; if (n == 19 && s.size() > 20 && s.find('.') != std::string::npos) s.resize(20); if (s.back() == '.') s += "0"; if (r.chance(20)) s = std::string(1 + r.below(25), '0') + s; if (r.chance(40)) s = "-" + s;
    if (r.chance(80)) { s += r.chance(50) ? "e" : "E"; int k = r.below(3); s += k == 0 ? "-" : k == 1 ? "+" : ""; s += std::to_string(r.below(r.chance(50) ? 30 : r.chance(50) ? 60 : 345)); }
    both(s); both(MID_D[r.below(sizeof MID_D / sizeof *MID_D)]); }
  done(); }
