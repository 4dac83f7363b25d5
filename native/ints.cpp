// Bounded falsifier for integer reading (P07) and writing (P08); oracle: decimal strings, no machine arithmetic.
#include "common.h"
#include <limits>
struct Dec { bool neg = false; std::string d; long e = 0; };          // value = d * 10^e
static Dec dec_of(const std::string &s) { Dec r; size_t i = 0; if (s[i] == '-') { r.neg = true; i++; }
  bool pt = false; for (; i < s.size() && (isdigit((unsigned char)s[i]) || s[i] == '.'); i++) { if (s[i] == '.') pt = true; else { r.d += s[i]; if (pt) r.e--; } }
  if (i < s.size()) { i++; bool en = false; if (s[i] == '+') i++; else if (s[i] == '-') { en = true; i++; } long x = 0; for (; i < s.size(); i++) if (x < 1000000000) x = x * 10 + (s[i] - '0'); r.e += en ? -x : x; }
  return r; }
// |value| truncated, as decimal digits without leading zeros; "" is zero, "inf" is more than 40 digits
static std::string trunc_of(Dec r) { size_t z = r.d.find_first_not_of('0'); if (z == std::string::npos) return ""; r.d.erase(0, z);
  if (r.e < 0) { if (size_t(-r.e) >= r.d.size()) return ""; r.d.resize(r.d.size() + r.e); return r.d; }
  if (r.d.size() + r.e > 40) return "inf"; r.d.append(size_t(r.e), '0'); return r.d; }
static bool gt(const std::string &a, const std::string &b) { if (a == "inf") return true; if (a.size() != b.size()) return a.size() > b.size(); return a > b; }
template <class T> static std::string lim_hi() { return std::to_string((unsigned long long)std::numeric_limits<T>::max()); }
template <class T> static std::string want(const std::string &txt) { Dec r = dec_of(txt); std::string t = trunc_of(r);
  if (t.empty()) return "0";
  if (!r.neg) { return gt(t, lim_hi<T>()) ? lim_hi<T>() : t; }
  if (!std::is_signed<T>::value) return "0";
  std::string lo = std::to_string((long long)std::numeric_limits<T>::min()).substr(1); return "-" + (gt(t, lo) ? lo : t); }
template <class T> static std::string show(T v) { char b[32]; if (std::is_signed<T>::value) snprintf(b, sizeof b, "%" PRId64, int64_t(v)); else snprintf(b, sizeof b, "%" PRIu64, uint64_t(v)); return b; }
static Guard *G;
template <class T> static void rd(const char *tn, const std::string &txt) { g_cases++; g_now = std::string("read ") + tn + " " + txt;
  JS::ParseContext pc; pc.token.value = JS::DataRef(G->at_end(txt), txt.size()); pc.token.value_type = JS::Type::Number; T v = T(77);
  JS::Error e = JS::TypeHandler<T>::to(v, pc);
  if (e != JS::Error::NoError) fail("reading " + txt.substr(0, 300) + " into " + tn + " reports error " + std::to_string(int(e)));
  if (show(v) != want<T>(txt)) fail("reading " + txt.substr(0, 300) + " into " + tn + " gives " + show(v) + ", expected " + want<T>(txt)); }
template <class T> static void wr(const char *tn, T v) { g_cases++; g_now = std::string("write ") + tn + " " + show(v);
  std::string o = JS::serializeStruct(v, JS::SerializerOptions(JS::SerializerOptions::Compact));
  if (o != show(v)) fail(std::string("writing ") + tn + " " + show(v) + " gives " + esc(o));
  JS::ParseContext pc; pc.token.value = JS::DataRef(o.data(), o.size()); pc.token.value_type = JS::Type::Number; T b = T(v ^ 1);
  if (JS::TypeHandler<T>::to(b, pc) != JS::Error::NoError || b != v) fail(std::string("reading back ") + tn + " " + o + " gives " + show(b)); }
#define ALL(f, x) f<int8_t>("int8_t", x); f<uint8_t>("uint8_t", x); f<int16_t>("int16_t", x); f<uint16_t>("uint16_t", x); f<int32_t>("int32_t", x); f<uint32_t>("uint32_t", x); f<int64_t>("int64_t", x); f<uint64_t>("uint64_t", x); f<long long>("long long", x); f<unsigned long long>("unsigned long long", x); f<char>("char", x)
static void rdall(const std::string &t) { ALL(rd, t); }
template <class T> static void wv(const char *tn, uint64_t x) { wr<T>(tn, T(x)); }
static void wrall(uint64_t x) { ALL(wv, x); }
static void variants(const std::string &digits) { // the same magnitude with sign, point and exponent in all places
  for (int neg = 0; neg < 2; neg++) for (int lead = 0; lead < 2; lead++) { std::string s = std::string(neg ? "-" : "") + (lead ? "00" : "") + digits; rdall(s); rdall(s + "e0"); rdall(s + ".0"); rdall(s + "E+1"); rdall(s + "e-1"); rdall(s + "000e-3"); rdall(s + ".999"); }
  for (size_t p = 1; p < digits.size(); p++) { std::string s = digits.substr(0, p) + "." + digits.substr(p); rdall(s); rdall("-" + s); rdall(s + "e" + std::to_string(digits.size() - p)); rdall("-" + s + "e" + std::to_string(digits.size() - p)); rdall(digits + "e-" + std::to_string(p)); rdall("-" + digits + "0e-" + std::to_string(p)); } }
int main(int argc, char **argv) { Clock ck(arg_budget(argc, argv)); Rng r(arg_seed(argc, argv)); bool read = argc < 4 || std::string(argv[3]) == "read";
  guard_install(unsigned(arg_budget(argc, argv) * 4 + 100)); G = new Guard(1 << 17);
  std::vector<uint64_t> edge; for (int b = 0; b <= 64; b++) for (int d = -3; d <= 3; d++) edge.push_back((b == 64 ? 0 : (1ull << b)) + d);
  for (uint64_t p = 1, k = 0; k < 20; k++, p *= 10) for (int m = 1; m < 10; m++) for (int d = -2; d <= 2; d++) { edge.push_back(p * m + d); edge.push_back(0 - (p * m + d)); }
  if (!read) { for (uint64_t e : edge) wrall(e); for (uint64_t i = 0; i < 70000; i++) { wrall(i); if ((i & 1023) == 0 && ck.over()) break; }
    while (!ck.over()) for (int i = 0; i < 500; i++) { uint64_t x = r.next() >> r.below(64); wrall(x); wrall(0 - x); } done(); }
  for (uint64_t e : edge) { variants(std::to_string(e)); if (ck.over()) break; }
  for (int n = 1; n < 60; n++) for (char c : {'0', '1', '9'}) { variants(std::string(n, c)); variants("1" + std::string(n, '0')); }
  for (const char *s : {"0e999999999999", "1e999999999999", "-1e999999999999", "1e-999999999999", "0.0000e10", "-0", "-0.0", "0", "1e308", "123456789e-9", "123456789e-8", "18446744073709551615", "18446744073709551616", "184467440737095516150e-1", "9223372036854775807.99999999999999999999999", "0.00000000000000000000000000000000012345e35"}) { rdall(s); }
  for (int n : {63, 127, 255, 256, 257, 1000, 65535, 65536, 70000}) { std::string z(n, '0'); rdall("1" + z); rdall("0." + z + "7e" + std::to_string(n + 1)); rdall("-5" + z + "e-" + std::to_string(n)); rdall(z + "42"); rdall("42." + z); rdall(std::string(n, '7') + "e-" + std::to_string(n - 2)); }
  while (!ck.over()) { std::string s; if (r.chance(50)) s += '-'; int n = r.chance(10) ? 1 + r.below(60) : 1 + r.below(22); int style = r.below(4);
    for (int i = 0; i < n; i++) s += style == 0 ? '9' : style == 1 ? "0001"[r.below(4)] : char('0' + r.below(10));
    if (style == 2 && r.chance(30)) { s = (s[0] == '-' ? "-" : "") + std::to_string(edge[r.below(uint32_t(edge.size()))]); n = int(s.size()); }
    if (r.chance(50)) { s.insert(s[0] == '-' ? 2 + r.below(uint32_t(s.size() - 1)) : 1 + r.below(uint32_t(s.size())), "."); if (s.back() == '.') s += char('0' + r.below(10)); }
    if (r.chance(60)) { s += r.chance(50) ? 'e' : 'E'; int k = r.below(3); s += k == 0 ? "-" : k == 1 ? "+" : ""; s += std::to_string(r.below(r.chance(80) ? 26 : 400)); }
    rdall(s); }
  done(); }
