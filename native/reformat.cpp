// Bounded falsifier: reformat gives the tokens of the document in the chosen style (text of an independent formatter), again for its own result, and reports tokenizing errors.
#include "common.h"
struct D { std::string src, out; };
static void nl(D &d, bool pretty, int shift, int depth) { if (pretty) { d.out += '\n'; d.out.append(size_t(shift * depth), ' '); } }
static void gen(Rng &r, D &d, int lim, int depth, bool pretty, int shift, int width, bool container = false) { auto both = [&](const std::string &s) { d.src += s; d.out += s; };
  int k = container ? 4 + int(r.below(2)) : int(r.below(lim > 0 ? 7 : 4)); std::string s;
  switch (k) { case 0: gen_str(r, s, r.chance(5)); both(s); return; case 1: gen_num(r, s); both(s); return; case 2: both(r.chance(50) ? "true" : "false"); return; case 3: both("null"); return; default: break; }
  bool obj = k & 1; both(obj ? "{" : "["); int n = int(r.below(uint32_t(width)));
  for (int i = 0; i < n; i++) { gen_ws(r, d.src); if (i) { both(","); gen_ws(r, d.src); } nl(d, pretty, shift, depth + 1); if (obj) { do { s.clear(); gen_str(r, s); } while (s.size() < 3); both(s); gen_ws(r, d.src); d.src += ":"; gen_ws(r, d.src); d.out += pretty ? ": " : ":"; } gen(r, d, lim - 1, depth + 1, pretty, shift, width); }
  gen_ws(r, d.src); nl(d, pretty, shift, depth); both(obj ? "}" : "]"); }
static void check(const std::string &src, const std::string &want, const JS::SerializerOptions &o, const std::string &at, Rng &r) { std::string out; if (r.chance(30)) out = std::string(r.below(40), 'x'); JS::Error e = r.chance(50) ? JS::reformat(src, out, o) : JS::reformat(src.data(), src.size(), out, o);
  if (e != JS::Error::NoError) fail("error " + std::to_string(int(e)) + at); if (out != want) { size_t i = 0; while (i < out.size() && i < want.size() && out[i] == want[i]) i++; fail("text differs at " + std::to_string(i) + ": got <" + esc(out.substr(i > 20 ? i - 20 : 0, 60)) + "> expected <" + esc(want.substr(i > 20 ? i - 20 : 0, 60)) + ">" + at); } }
int main(int argc, char **argv) { Clock c(arg_budget(argc, argv)); Rng r(arg_seed(argc, argv)); guard_install(unsigned(arg_budget(argc, argv)) + 60);
  while (!c.over()) { g_cases++; bool pretty = r.chance(50); int shift = pretty ? (r.chance(50) ? 2 : int(r.below(6))) : 0; JS::SerializerOptions o(pretty ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact); if (pretty) o.setShiftSize((unsigned char)shift);
    D d; gen_ws(r, d.src); bool deep = r.chance(5), wide = r.chance(8); int lim = deep ? 30 : int(r.below(5)); gen(r, d, wide ? 2 : lim, 0, pretty, shift, wide ? 120 : deep ? 3 : 5, true); gen_ws(r, d.src);
    std::string at = " pretty=" + std::to_string(pretty) + " shift=" + std::to_string(shift) + " text=" + esc(d.src.substr(0, 300)); g_now = at; check(d.src, d.out, o, at, r); check(d.out, d.out, o, " (again)" + at, r);
    // broken: a closing bracket of the other kind, a separator missing, an illegal byte instead of a value
    std::string b = d.out; std::vector<size_t> cl, cm; bool q = false; for (size_t i = 0; i < b.size(); i++) { if (q) { if (b[i] == '\\') i++; else if (b[i] == '"') q = false; } else if (b[i] == '"') q = true; else if (b[i] == ']' || b[i] == '}') cl.push_back(i); else if (b[i] == ',') cm.push_back(i); }
    std::string out; if (!cl.empty() && r.chance(60)) { std::string x = b; size_t i = cl[r.below(uint32_t(cl.size()))]; x[i] = x[i] == ']' ? '}' : ']'; if (JS::reformat(x, out, o) == JS::Error::NoError) fail("mismatched bracket at " + std::to_string(i) + " accepted, text=" + esc(x.substr(0, 300))); }
    if (!cm.empty() && r.chance(60)) { std::string x = b; size_t i = cm[r.below(uint32_t(cm.size()))]; x[i] = ' '; out.clear(); if (JS::reformat(x, out, o) == JS::Error::NoError) fail("missing separator at " + std::to_string(i) + " accepted, text=" + esc(x.substr(0, 300))); }
    if (!cm.empty() && r.chance(60)) { std::string x = b; size_t i = cm[r.below(uint32_t(cm.size()))]; x.insert(i + 1, "*"); out.clear(); if (JS::reformat(x, out, o) == JS::Error::NoError) fail("illegal byte at " + std::to_string(i) + " accepted, text=" + esc(x.substr(0, 300))); } }
  done(); }
