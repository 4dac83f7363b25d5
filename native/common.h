// Shared helpers for the native replay/falsifier drivers.  They link the real header from /repo.
#pragma once
#define JS_STL_MAP 1
#define JS_STL_SET 1
#define JS_STL_UNORDERED_MAP 1
#define JS_STL_UNORDERED_SET 1
#define JS_STL_ARRAY 1
#ifdef OPEN_PRIVATE
#include <string>
#include <vector>
#include <functional>
#include <memory>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <tuple>
#include <array>
#include <algorithm>
#include <sstream>
#include <chrono>
#include <optional>
#define private public
#define protected public
#endif
#include <json_struct/json_struct.h>
#ifdef OPEN_PRIVATE
#undef private
#undef protected
#endif
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <chrono>
#include <cinttypes>
struct Rng { uint64_t s; explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  uint32_t below(uint32_t n) { return n ? uint32_t((next() >> 33) % n) : 0; }
  bool chance(int pct) { return int(below(100)) < pct; } };
struct Clock { std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now(); double lim;
  explicit Clock(double l) : lim(l) {}
  bool over() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > lim; } };
inline std::string esc(const std::string &s) { std::string o; char b[8];
  for (unsigned char c : s) { if (c >= 0x20 && c < 0x7f && c != '\\') o += char(c); else { snprintf(b, sizeof b, "\\x%02x", c); o += b; } } return o; }
static long g_cases = 0;
[[noreturn]] inline void fail(const std::string &what) { printf("FAIL %s\n", what.c_str()); fflush(stdout); exit(1); }
[[noreturn]] inline void done() { printf("OK cases=%ld\n", g_cases); fflush(stdout); exit(0); }
inline double arg_budget(int argc, char **argv) { return argc > 1 ? atof(argv[1]) : 5; }
inline uint64_t arg_seed(int argc, char **argv) { return argc > 2 ? strtoull(argv[2], nullptr, 10) : 1; }
// ---- random JSON text ----
inline void gen_str(Rng &r, std::string &o, bool longer = false) {
  o += '"'; int n = r.chance(15) ? 14 + int(r.below(60)) : int(r.below(longer ? 40 : 8));
  for (int i = 0; i < n; i++) { switch (r.below(12)) {
    case 0: o += "\\\""; break; case 1: o += "\\\\"; break; case 2: o += "\\n"; break; case 3: o += "\\u00e9"; break;
    case 4: o += "\\ud83d\\ude00"; break; case 5: o += "{}[]:,"[r.below(6)]; break; case 6: o += char(0x80 + r.below(0x80)); break;
    case 7: o += ' '; break; default: o += char('a' + r.below(26)); } }
  o += '"'; }
inline void gen_ws(Rng &r, std::string &o) { if (!r.chance(30)) return; int n = r.chance(10) ? 17 + int(r.below(40)) : 1 + int(r.below(3)); while (n--) o += " \t\r\n"[r.below(4)]; }
inline void gen_num(Rng &r, std::string &o) { char b[64];
  switch (r.below(6)) { case 0: snprintf(b, sizeof b, "%d", int(r.below(100))); break; case 1: snprintf(b, sizeof b, "-%d", int(r.below(100000))); break;
    case 2: snprintf(b, sizeof b, "%.17g", double(int64_t(r.next())) / 1e9); break; case 3: snprintf(b, sizeof b, "%de%d", int(r.below(100)), int(r.below(30))); break;
    case 4: snprintf(b, sizeof b, "%" PRIu64, r.next()); break; default: snprintf(b, sizeof b, "0.%dE-%d", int(r.below(1000)), int(r.below(20))); }
  o += b; }
inline void gen_val(Rng &r, std::string &o, int d, bool loose = false) {
  int k = r.below(d <= 0 ? 5 : 9);
  switch (k) { case 0: gen_str(r, o); break; case 1: gen_num(r, o); break; case 2: o += "true"; break; case 3: o += r.chance(50) ? "false" : "null"; break;
    case 4: if (loose) { o += "ident"; o += char('a' + r.below(26)); if (r.chance(10)) o += "_longer_identifier_1234567890"; } else gen_str(r, o, true); break;
    case 5: case 6: { o += '['; int n = r.below(5); for (int i = 0; i < n; i++) { if (i) o += ','; gen_ws(r, o); gen_val(r, o, d - 1, loose); gen_ws(r, o); } if (!n) gen_ws(r, o); o += ']'; break; }
    default: { o += '{'; int n = r.below(5); for (int i = 0; i < n; i++) { if (i) o += ','; gen_ws(r, o); if (loose && r.chance(40)) { o += "k"; o += char('a' + r.below(26)); } else gen_str(r, o); gen_ws(r, o); o += ':'; gen_ws(r, o); gen_val(r, o, d - 1, loose); gen_ws(r, o); } if (!n) gen_ws(r, o); o += '}'; } } }
inline std::string gen_doc(Rng &r, int d = 4, bool loose = false) { std::string o; gen_ws(r, o);
  if (r.chance(50)) { o += '['; int n = 1 + r.below(5); for (int i = 0; i < n; i++) { if (i) o += ','; gen_ws(r, o); gen_val(r, o, d, loose); gen_ws(r, o); } o += ']'; }
  else { o += '{'; int n = 1 + r.below(5); for (int i = 0; i < n; i++) { if (i) o += ','; gen_ws(r, o); gen_str(r, o); gen_ws(r, o); o += ':'; gen_ws(r, o); gen_val(r, o, d, loose); gen_ws(r, o); } o += '}'; }
  gen_ws(r, o); return o; }
inline void mutate(Rng &r, std::string &s) { int n = 1 + r.below(3); static const char al[] = "{}[]:,\"\\ \n\t0a-+.eEtfnu/_\x01\x7f\xff";
  while (n-- && !s.empty()) { size_t p = r.below(uint32_t(s.size())); char c = al[r.below(sizeof(al) - 1)];
    switch (r.below(3)) { case 0: s[p] = c; break; case 1: s.erase(p, 1 + r.below(3)); break; default: s.insert(p, 1, c); } } }

// ---- a copy of some bytes placed directly against an inaccessible page ----
static std::string g_now = "?";
inline void on_segv(int sig) { std::string m = "FAIL signal " + std::to_string(sig) + " (out-of-bounds access, abort or endless loop) in case " + g_now + "\n"; ssize_t r = write(1, m.data(), m.size()); (void)r; _exit(1); }
inline void guard_install(unsigned alarm_s = 0) { fflush(stdout); signal(SIGSEGV, on_segv); signal(SIGBUS, on_segv); signal(SIGABRT, on_segv); signal(SIGFPE, on_segv); signal(SIGILL, on_segv); signal(SIGALRM, on_segv); if (alarm_s) alarm(alarm_s); }
struct Guard { char *base; size_t cap; size_t pg;
  explicit Guard(size_t n = 1 << 16) { pg = size_t(sysconf(_SC_PAGESIZE)); cap = (n + pg - 1) / pg * pg; base = static_cast<char *>(mmap(nullptr, cap + 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); mprotect(base, pg, PROT_NONE); mprotect(base + pg + cap, pg, PROT_NONE); }
  char *at_end(const std::string &s) { char *p = base + pg + cap - s.size(); memcpy(p, s.data(), s.size()); return p; }
  char *end(size_t n) { return base + pg + cap - n; }
  char *at_start(const std::string &s) { char *p = base + pg; memcpy(p, s.data(), s.size()); return p; } };
