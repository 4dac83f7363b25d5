// Bounded falsifier: the token stream does not depend on how the text is split into buffers.
#include "common.h"
struct Tk { std::string n, v; int nt, vt; bool operator==(const Tk &o) const { return n == o.n && v == o.v && nt == o.nt && vt == o.vt; } };
struct Res { std::vector<Tk> t; int err; };
static Res run(const std::vector<std::string> &parts, int opt, int mode = 0) {
  JS::Tokenizer tk; tk.allowAsciiType(opt & 1); tk.allowNewLineAsTokenDelimiter(opt & 2); tk.allowSuperfluousComma(opt & 4);
  std::vector<std::unique_ptr<char[]>> bufs; size_t i = 0; Res r; r.err = 0;
  auto push = [&]() -> bool { if (i >= parts.size()) return false; size_t n = parts[i].size(); bufs.emplace_back(new char[n ? n : 1]); memcpy(bufs.back().get(), parts[i].data(), n); tk.addData(bufs.back().get(), n); i++; return true; };
  if (mode == 1) tk.setNeedMoreDataCallback([&](JS::Tokenizer &) { push(); }); else if (mode == 2) while (push()) {} else push();
  for (;;) { JS::Token t; JS::Error e = tk.nextToken(t);
    if (e == JS::Error::NeedMoreData) { if (!mode && !bufs.empty()) { for (auto &b : bufs) (void)b; bufs.clear(); } if (!push()) break; continue; }
    if (e != JS::Error::NoError) { r.err = int(e); break; }
    r.t.push_back({std::string(t.name.data, t.name.size), std::string(t.value.data, t.value.size), int(t.name_type), int(t.value_type)});
    if (r.t.size() > 5000) break; }
  return r; }
static std::string show(const Res &r) { std::string o; for (auto &t : r.t) { char b[64]; snprintf(b, sizeof b, "/%d:", t.nt); o += "(" + esc(t.n) + b + esc(t.v); snprintf(b, sizeof b, "/%d)", t.vt); o += b; } char b[32]; snprintf(b, sizeof b, " err=%d", r.err); return o + b; }
static void cmp(const std::string &s, const std::vector<std::string> &parts, int opt, const Res &whole) { g_cases++;
  for (int mode = 0; mode < 3; mode++) { Res r = run(parts, opt, mode);
  if (!(r.t == whole.t) || r.err != whole.err) { std::string p; for (auto &x : parts) p += esc(x) + "|"; char b[16]; snprintf(b, sizeof b, "%d", opt);
    fail("chunk opt=" + std::string(b) + " whole=" + esc(s) + " parts=" + p + " whole-tokens=" + show(whole) + " split-tokens=" + show(r) + " feeding=" + (mode == 0 ? "on-request" : mode == 1 ? "callback" : "up-front")); } } }
static void all(const std::string &s, int opt, Rng &r) { Res w = run({s}, opt);
  for (size_t i = 0; i <= s.size(); i++) cmp(s, {s.substr(0, i), s.substr(i)}, opt, w);
  std::vector<std::string> ones; for (char c : s) ones.push_back(std::string(1, c)); cmp(s, ones, opt, w);
  for (int k = 0; k < 4; k++) { std::vector<std::string> p; size_t i = 0; while (i < s.size()) { size_t n = r.chance(20) ? 0 : 1 + r.below(k == 0 ? 3 : 25); p.push_back(s.substr(i, n)); i += p.back().size(); } cmp(s, p, opt, w); } }
int main(int argc, char **argv) {
  Clock ck(arg_budget(argc, argv)); Rng r(arg_seed(argc, argv));
  if (argc > 3) { std::vector<std::string> parts; std::string s; for (int i = 4; i < argc; i++) { parts.push_back(argv[i]); s += argv[i]; } int opt = atoi(argv[3]); Res w = run({s}, opt); cmp(s, parts, opt, w); done(); }
  static const char *fixed[] = {"[\"abc\" ,2]", "{\"a\" : 1 , \"b\":[true , null,\"x\"] }", "[[],{},[{}]]", "{\"k\\\\\\\"\":\"v\\\\\"}", "[1e5 ,-2.5,true]\n[1]", "{\"a\":{\"b\":{}} ,\"c\":[ ] }", "{a:b,c:[d]}", "{null:1}", "[1\n2\n3]", "[1,2,]", "[,]", "{\"a\" 1}", "[1 2]", "{1:2}"};
  for (auto f : fixed) for (int o = 0; o < 8; o++) all(f, o, r);
  // exhaustive short texts over the structural alphabet
  static const char al[] = "[]{}:,\"\\1a \n";
  for (int len = 1; len <= 5; len++) { std::vector<int> ix(len, 0); const int A = sizeof(al) - 1;
    for (;;) { std::string s; for (int x : ix) s += al[x]; if (len < 5 || s[0] == '[' || s[0] == '{') { for (int o = 0; o < 8; o += (len < 5 ? 1 : 7)) { Res w = run({s}, o); std::vector<std::string> ones; for (char c : s) ones.push_back(std::string(1, c)); cmp(s, ones, o, w); } }
      int k = len - 1; while (k >= 0 && ++ix[k] == A) ix[k--] = 0; if (k < 0) break; }
    if (ck.over()) break; }
  while (!ck.over()) { int opt = r.chance(50) ? 0 : r.below(8); std::string s = gen_doc(r, 3, r.chance(30)); if (r.chance(40)) mutate(r, s); std::string t; for (char c : s) if (c) t += c; if (t.size() < 400) all(t, opt, r); }
  done(); }
