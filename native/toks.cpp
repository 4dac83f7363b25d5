// Bounded falsifier for the tokenizer: memory safety and termination on any bytes (mode safe), bracket matching and names (mode nest).
#include "common.h"
static void set_opts(JS::Tokenizer &tk, int opt) { tk.allowAsciiType(opt & 1); tk.allowNewLineAsTokenDelimiter(opt & 2); tk.allowSuperfluousComma(opt & 4); tk.allowComments(opt & 8); }
static std::string show(const std::vector<std::string> &parts, int opt) { std::string o = "opt=" + std::to_string(opt) + " parts="; for (auto &p : parts) o += esc(p) + "|"; return o; }
static volatile unsigned long g_sum = 0;
static void touch(const JS::DataRef &d) { unsigned long x = 0; for (size_t i = 0; i < d.size; i++) x += static_cast<unsigned char>(d.data[i]); g_sum = g_sum + x; }
// every buffer lies directly against an inaccessible page and is unmapped (protected) once the tokenizer asked for more
struct Pages { std::vector<Guard *> pool; size_t used = 0;
  char *put(const std::string &s, bool end) { if (used == pool.size()) pool.push_back(new Guard(1 << 13)); Guard *g = pool[used++]; mprotect(g->base + g->pg, g->cap, PROT_READ | PROT_WRITE); return end ? g->at_end(s) : g->at_start(s); }
  void retire() { for (size_t i = 0; i < used; i++) mprotect(pool[i]->base + pool[i]->pg, pool[i]->cap, PROT_NONE); used = 0; } };
static Pages g_pages;
static void safe(const std::vector<std::string> &parts, int opt, int mode) { g_cases++; g_now = show(parts, opt);
  g_pages.retire();
  JS::Tokenizer tk; set_opts(tk, opt); size_t i = 0, total = 0; for (auto &p : parts) total += p.size();
  auto push = [&](JS::Tokenizer &t) -> bool { if (i >= parts.size()) return false; bool end = mode & 1; char *b = g_pages.put(parts[i], end); t.addData(b, parts[i].size()); i++; return true; };
  if (mode & 2) tk.setNeedMoreDataCallback([&](JS::Tokenizer &t) { push(t); });
  else push(tk);
  size_t n = 0, after = 0;
  for (;;) { JS::Token t; JS::Error e = tk.nextToken(t);
    if (e == JS::Error::NeedMoreData) { if (!(mode & 2)) { g_pages.retire(); if (push(tk)) continue; } break; }
    if (e != JS::Error::NoError) { std::string m = tk.makeErrorString(); g_sum = g_sum + m.size(); if (++after > 8) break; continue; }
    touch(t.name); touch(t.value);
    if (++n > 2 * total + 16) fail("more tokens than input bytes " + g_now); } }
static std::string gen_bytes(Rng &r) { std::string s; size_t n = r.below(r.chance(20) ? 200 : 40);
  switch (r.below(4)) {
    case 0: for (size_t i = 0; i < n; i++) s += char(r.below(256)); break;
    case 1: { static const char al[] = "{}[]:,\"\\/*0-9.eE+tfn \n\t\r\x00\x01\x7f\xff" "ab_'"; for (size_t i = 0; i < n; i++) s += al[r.below(sizeof(al) - 1)]; break; }
    case 2: { static const char *w[] = {"/*", "*/", "//", "\n", "{\"a\":", "[", "]", "}", ",", "\"\\", "\"", "1", "true", "tru", "null", " ", "\\u12", "/", "*", "-", "1e"}; for (size_t i = 0; i < n / 3; i++) s += w[r.below(sizeof w / sizeof *w)]; break; }
    default: s = gen_doc(r, 3, r.chance(40)); if (r.chance(80)) mutate(r, s); if (r.chance(30)) { size_t p = r.below(uint32_t(s.size() + 1)); s.insert(p, r.chance(50) ? "/* c */" : "// c\n"); } }
  if (s.size() > 8000) s.resize(8000);
  return s; }
static std::vector<std::string> split(Rng &r, const std::string &s) { std::vector<std::string> p; size_t i = 0; while (i < s.size()) { size_t n = r.chance(15) ? 0 : 1 + r.below(20); p.push_back(s.substr(i, n)); i += p.back().size(); } if (p.empty()) p.push_back(""); return p; }
// ---- bracket matching
struct Ref { std::vector<char> st; };
static void nest(const std::vector<std::string> &parts, int opt, bool valid, bool emptyname, size_t expect_depth = 0) { g_cases++; if (parts.size() < 100) g_now = show(parts, opt);
  JS::Tokenizer tk; set_opts(tk, opt); size_t i = 0; for (; i < 1 && i < parts.size(); i++) tk.addData(parts[i].data(), parts[i].size());
  std::vector<char> st; size_t maxd = 0; JS::Error e; size_t n = 0; bool closed = false;
  for (;;) { JS::Token t; e = tk.nextToken(t);
    if (e == JS::Error::NeedMoreData) { if (i < parts.size()) { tk.addData(parts[i].data(), parts[i].size()); i++; continue; } break; }
    if (e != JS::Error::NoError) break;
    std::string at = " token=" + std::to_string(n++) + " ";
    switch (t.value_type) {
      case JS::Type::ObjectStart: st.push_back('{'); break;
      case JS::Type::ArrayStart: st.push_back('['); break;
      case JS::Type::ObjectEnd: if (st.empty() || st.back() != '{') fail("end of object delivered, innermost is not an object" + at + g_now); st.pop_back(); closed = st.empty(); break;
      case JS::Type::ArrayEnd: if (st.empty() || st.back() != '[') fail("end of array delivered, innermost is not an array" + at + g_now); st.pop_back(); closed = st.empty(); break;
      default:
        if (!st.empty() && st.back() == '{' && !t.name.size && !emptyname) fail("scalar without a name inside an object" + at + g_now);
        if (!st.empty() && st.back() == '[' && t.name.size) fail("named scalar inside an array" + at + g_now); }
    if (st.size() > maxd) maxd = st.size(); }
  if (valid && (e != JS::Error::NeedMoreData || !st.empty() || !closed)) fail("valid document not tokenized to its end, error=" + std::to_string(int(e)) + " " + g_now);
  if (expect_depth && maxd != expect_depth) fail("nesting depth " + std::to_string(maxd) + " expected " + std::to_string(expect_depth)); }
// reference: is the bracket structure broken at the first mismatching closer? then the tokenizer must not accept the whole text
static bool closer_mismatch(const std::string &s) { std::vector<char> st; bool q = false; for (size_t i = 0; i < s.size(); i++) { char c = s[i]; if (q) { if (c == '\\') i++; else if (c == '"') q = false; continue; } if (c == '"') q = true; else if (c == '[' || c == '{') st.push_back(c); else if (c == ']' || c == '}') { if (st.empty() || st.back() != (c == ']' ? '[' : '{')) return true; st.pop_back(); } } return false; }
static void reject(const std::string &s, int opt) { g_cases++; JS::Tokenizer tk; set_opts(tk, opt); tk.addData(s.data(), s.size()); JS::Token t; JS::Error e; while ((e = tk.nextToken(t)) == JS::Error::NoError) {} if (e == JS::Error::NeedMoreData) fail("mismatched closing bracket accepted opt=" + std::to_string(opt) + " text=" + esc(s)); }
int main(int argc, char **argv) {
  Clock ck(arg_budget(argc, argv)); Rng r(arg_seed(argc, argv)); std::string mode = argc > 3 ? argv[3] : "safe"; guard_install(unsigned(arg_budget(argc, argv)) + 60);
  if (mode == "safe") {
    static const char al[] = "[]{}:,\"\\/*1a\n";
    for (int len = 1; len <= 4; len++) { std::vector<int> ix(len, 0); const int A = sizeof(al) - 1;
      for (;;) { std::string s; for (int x : ix) s += al[x]; safe({s}, 15, 1); if (len < 4) { safe({s}, 0, 0); std::vector<std::string> ones; for (char c : s) ones.push_back(std::string(1, c)); safe(ones, 15, 3); }
        int k = len - 1; while (k >= 0 && ++ix[k] == A) ix[k--] = 0; if (k < 0) break; } if (ck.over()) break; }
    while (!ck.over()) { std::string s = gen_bytes(r); int opt = r.below(16); safe({s}, opt, r.below(4)); safe(split(r, s), opt, r.below(4)); }
  } else {
    for (size_t d : {1, 2, 31, 32, 33, 255, 256, 257, 1000, 65535, 65536, 70000}) for (int k = 0; k < 3; k++) { std::string s, c; for (size_t i = 0; i < d; i++) { bool arr = k == 0 || (k == 2 && i % 3); s += arr ? "[" : i + 1 < d || true ? "{\"k\":" : ""; c = (arr ? "]" : "}") + c; if (d > 2000 && i % 4096 == 0 && ck.over()) break; } 
      if (d > 2000) { c.clear(); std::string t; for (size_t i = 0; i < s.size(); i++) if (s[i] == '[') t += ']'; else if (s[i] == '{') t += '}'; c.assign(t.rbegin(), t.rend()); }
      nest({s + "1" + (k == 0 ? "" : "") + c}, 0, true, false, d); std::string bad = s + "1" + c; size_t p = bad.size() - c.size() + r.below(uint32_t(c.size())); bad[p] = bad[p] == ']' ? '}' : ']'; reject(bad, 0); }
    static const char *al[] = {"[", "]", "{", "}", ":", ",", "\"a\"", "1", "true"};
    for (int len = 1; len <= 6; len++) { std::vector<int> ix(len, 0); const int A = 9;
      for (;;) { std::string s; for (int x : ix) s += al[x]; if (len < 6 || s[0] == '[' || s[0] == '{') { for (int o = 0; o < 8; o += 7) { nest({s}, o, false, false); } if (closer_mismatch(s)) { reject(s, 0); reject(s, 5); } }
        int k = len - 1; while (k >= 0 && ++ix[k] == A) ix[k--] = 0; if (k < 0) break; } if (ck.over()) break; }
    while (!ck.over()) { std::string s = gen_doc(r, 5); bool en = s.find("\"\"") != std::string::npos; nest({s}, 0, true, en); nest(split(r, s), int(r.below(8)) & 5, true, en);
      std::vector<size_t> cl; bool q = false; for (size_t i = 0; i < s.size(); i++) { if (q) { if (s[i] == '\\') i++; else if (s[i] == '"') q = false; } else if (s[i] == '"') q = true; else if (s[i] == ']' || s[i] == '}') cl.push_back(i); }
      if (!cl.empty()) { std::string t = s; size_t p = cl[r.below(uint32_t(cl.size()))]; t[p] = t[p] == ']' ? '}' : ']'; reject(t, 0); reject(s + (r.chance(50) ? "]" : "}"), 0); }
      mutate(r, s); en = s.find("\"\"") != std::string::npos; std::string u; for (char c : s) if (c) u += c; nest(split(r, u), r.below(8), false, en); }
  }
  done(); }
