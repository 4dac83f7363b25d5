// P09 (mode buf): the serializer's output for random token sequences does not depend on the output buffers; P10 (mode text): it is
// the text an independent formatter produces, and tokenizing it gives the tokens back.
#include "common.h"
struct Tk { std::string name; JS::Type nt; std::string value; JS::Type vt; };
static JS::Token tok(const Tk &t) { JS::Token r; r.name = JS::DataRef(t.name.data(), t.name.size()); r.name_type = t.nt; r.value = JS::DataRef(t.value.data(), t.value.size()); r.value_type = t.vt; return r; }
struct Opt { bool pretty; int shift; bool skip; bool conv; };
static JS::SerializerOptions opts(const Opt &o, bool viaSet) { JS::SerializerOptions s(viaSet ? (o.pretty ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty) : (o.pretty ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact));
  if (viaSet) s.setStyle(o.pretty ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact);
  s.setShiftSize((unsigned char)o.shift); if (o.skip) s.skipDelimiter(true); s.setConvertAsciiToString(o.conv); return s; }
static std::string word(Rng &r) { std::string s; int n = r.chance(10) ? 20 + r.below(60) : 1 + r.below(6); while (n--) s += char('a' + r.below(26)); return s; }
static std::string body(Rng &r) { std::string s; gen_str(r, s); return s.substr(1, s.size() - 2); }
static void gen(Rng &r, std::vector<Tk> &v, int d, bool named, int width) {
  Tk t; t.nt = JS::Type::Ascii; if (named) { if (r.chance(25)) { t.name = word(r); t.nt = JS::Type::Ascii; } else { do t.name = body(r); while (t.name.empty()); t.nt = JS::Type::String; } }
  int k = r.below(d > 0 ? 10 : 5);
  switch (k) { case 0: t.value = body(r); t.vt = JS::Type::String; break; case 1: gen_num(r, t.value); t.vt = JS::Type::Number; break;
    case 2: t.value = r.chance(50) ? "true" : "false"; t.vt = JS::Type::Bool; break; case 3: t.value = "null"; t.vt = JS::Type::Null; break; case 4: t.value = "x" + word(r); t.vt = JS::Type::Ascii; break;
    default: { bool obj = k < 8; t.value = obj ? "{" : "["; t.vt = obj ? JS::Type::ObjectStart : JS::Type::ArrayStart; v.push_back(t); int n = r.below(width); for (int i = 0; i < n; i++) gen(r, v, d - 1, obj, width);
      Tk e; e.nt = JS::Type::Ascii; e.value = obj ? "}" : "]"; e.vt = obj ? JS::Type::ObjectEnd : JS::Type::ArrayEnd; v.push_back(e); return; } }
  v.push_back(t); }
static std::vector<Tk> seq(Rng &r) { std::vector<Tk> v; if (r.chance(15)) { int d = 1 + r.below(14); bool obj = false; std::vector<bool> st;
    for (int i = 0; i < d; i++) { Tk t; t.nt = JS::Type::String; if (i && obj) t.name = "n" + std::to_string(i); obj = r.chance(50); st.push_back(obj); t.value = obj ? "{" : "["; t.vt = obj ? JS::Type::ObjectStart : JS::Type::ArrayStart; v.push_back(t); }
    if (r.chance(60)) gen(r, v, 0, obj, 2);
    while (!st.empty()) { Tk e; e.nt = JS::Type::Ascii; e.value = st.back() ? "}" : "]"; e.vt = st.back() ? JS::Type::ObjectEnd : JS::Type::ArrayEnd; v.push_back(e); st.pop_back(); if (!st.empty() && r.chance(40)) gen(r, v, 0, st.back(), 2); }
    return v; }
  Tk t; t.nt = JS::Type::Ascii; bool obj = r.chance(50); t.value = obj ? "{" : "["; t.vt = obj ? JS::Type::ObjectStart : JS::Type::ArrayStart; v.push_back(t); int n = r.below(5); for (int i = 0; i < n; i++) gen(r, v, r.below(5), obj, 4);
  Tk e; e.nt = JS::Type::Ascii; e.value = obj ? "}" : "]"; e.vt = obj ? JS::Type::ObjectEnd : JS::Type::ArrayEnd; v.push_back(e); return v; }
// independent formatter: children of each container on their own lines
static std::string quote(const std::string &s, JS::Type t, const Opt &o) { return t == JS::Type::String || (t == JS::Type::Ascii && o.conv) ? "\"" + s + "\"" : s; }
static size_t format(const std::vector<Tk> &v, size_t i, int depth, const Opt &o, std::string &out) {
  const Tk &t = v[i]; if (!t.name.empty()) { out += quote(t.name, t.nt, o); out += o.pretty ? ": " : ":"; }
  out += quote(t.value, t.vt, o);
  if (t.vt != JS::Type::ObjectStart && t.vt != JS::Type::ArrayStart) return i + 1;
  size_t k = i + 1; bool first = true;
  while (v[k].vt != JS::Type::ObjectEnd && v[k].vt != JS::Type::ArrayEnd) { if (!first && !o.skip) out += ","; first = false; if (o.pretty) { out += "\n"; out.append(size_t(depth + 1) * o.shift, ' '); } k = format(v, k, depth + 1, o, out); }
  if (o.pretty) { out += "\n"; out.append(size_t(depth) * o.shift, ' '); }
  out += v[k].value; return k + 1; }
static std::string show(const std::vector<Tk> &v, const Opt &o) { std::string s = "pretty=" + std::to_string(o.pretty) + " shift=" + std::to_string(o.shift) + " skip=" + std::to_string(o.skip) + " conv=" + std::to_string(o.conv) + " tokens="; for (auto &t : v) s += "<" + esc(t.name) + "|" + esc(t.value) + ">"; return s; }
static std::string whole(const std::vector<Tk> &v, const Opt &o, bool viaSet) { std::vector<char> b(size_t(1) << 17); JS::Serializer s(b.data(), b.size()); s.setOptions(opts(o, viaSet));
  for (auto &t : v) if (!s.write(tok(t))) fail("write refused with room left " + show(v, o)); return std::string(b.data(), s.currentBuffer().used); }
// sizes: the buffers supplied, repeated from the start when cyc; initial: the first one is given to the constructor
static bool run(const std::vector<Tk> &v, const Opt &o, const std::vector<size_t> &sizes, bool cyc, bool initial, std::string &out, std::string &why) {
  std::vector<std::vector<char>> bufs; size_t next = 0, total = 0; bool dry = false;
  static Guard *pool[2] = {new Guard(1 << 17), new Guard(1 << 17)}; int which = 0; char *cur = nullptr; size_t cursz = 0; char before = 0;
  out.clear();
  auto take = [&](JS::Serializer *s) { if (next >= sizes.size() && !cyc) { dry = true; return; } size_t n = sizes[next++ % sizes.size()]; which ^= 1; cur = pool[which]->end(n); cur[-1] = '\x5a'; memset(cur, 0, n); cursz = n; total += n; if (s) s->setBuffer(cur, n); };
  auto keep = [&](size_t used) { if (!cur) return; if (cur[-1] != '\x5a') why = "byte before the buffer overwritten"; out.append(cur, used); cur = nullptr; };
  if (initial) take(nullptr);
  JS::Serializer s = initial && cur ? JS::Serializer(cur, cursz) : JS::Serializer(); s.setOptions(opts(o, false)); (void)before;
  s.setRequestBufferCallback([&](JS::Serializer &x) { keep(cursz); if (!dry) take(&x); });
  bool ok = true; for (auto &t : v) { bool w = s.write(tok(t)); if (!ok && w) why = "write succeeded after the buffers ran out"; ok = ok && w; if (!ok && !cyc) { break; } }
  if (s.currentBuffer().used > s.currentBuffer().size) why = "used exceeds size";
  keep(ok ? s.currentBuffer().used : s.currentBuffer().used);
  return ok; }
int main(int argc, char **argv) {
  guard_install(); Clock c(arg_budget(argc, argv)); Rng r(arg_seed(argc, argv)); std::string mode = argc > 3 ? argv[3] : "text";
  for (long n = 0; n < 3 || !c.over(); n++) {
    auto v = seq(r); Opt o; o.pretty = r.chance(60); o.shift = !o.pretty ? int(r.below(5)) : r.chance(50) ? 2 : int(r.below(9)); o.skip = r.chance(15); o.conv = !r.chance(20); g_now = show(v, o);
    std::string want; format(v, 0, 0, o, want); bool viaSet = r.chance(40);
    std::string got = whole(v, o, viaSet); g_cases++;
    if (mode == "text") {
      if (got != want) fail(show(v, o) + " wrote " + esc(got) + " expected " + esc(want));
      if (!o.skip) { JS::Tokenizer t; t.allowAsciiType(true); t.addData(got.data(), got.size()); JS::Token k;
        for (size_t i = 0; i < v.size(); i++) { JS::Error e = t.nextToken(k); JS::Type wn = v[i].nt == JS::Type::Ascii && o.conv && !v[i].name.empty() ? JS::Type::String : v[i].nt, wv = v[i].vt == JS::Type::Ascii && o.conv ? JS::Type::String : v[i].vt;
          if (e != JS::Error::NoError || std::string(k.name.data ? k.name.data : "", k.name.size) != v[i].name || std::string(k.value.data, k.value.size) != v[i].value || k.value_type != wv || (!v[i].name.empty() && k.name_type != wn)) fail("token " + std::to_string(i) + " does not come back: " + show(v, o) + " text " + esc(got)); }
        if (t.nextToken(k) != JS::Error::NeedMoreData) fail("trailing tokens in " + esc(got)); }
      // an end without a start is refused and writes nothing
      char b[64]; JS::Serializer s(b, sizeof b); s.setOptions(opts(o, false)); Tk e; e.nt = JS::Type::Ascii; e.value = "}"; e.vt = JS::Type::ObjectEnd; if (s.write(tok(e)) || s.currentBuffer().used) fail("unbalanced end accepted");
      continue; }
    std::string out, why; size_t L = got.size();
    if (n % 16 == 0) { // the growing string of serializeStruct
      std::vector<std::string> big; size_t target = (size_t(4096) << r.below(4)) - 40 + r.below(60), tot = 0; while (tot < target) { size_t k = 1 + r.below(200); if (tot + k > target) k = target - tot; big.push_back(std::string(k, char('a' + r.below(26)))); tot += k + 3; }
      JS::SerializerOptions so(o.pretty ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact); std::string g = JS::serializeStruct(big, so); std::vector<char> b(size_t(1) << 18); JS::Serializer s(b.data(), b.size()); s.setOptions(so); JS::Token t; JS::TypeHandler<std::vector<std::string>>::from(big, t, s);
      if (g != std::string(b.data(), s.currentBuffer().used)) fail("serializeStruct of " + std::to_string(tot) + " bytes differs from the same value written to one buffer (" + std::to_string(g.size()) + " bytes)"); g_cases++; }
    auto ck = [&](std::vector<size_t> z, bool cyc, bool init) { g_cases++; why.clear(); size_t tot = 0; for (auto x : z) tot += x; bool ok = run(v, o, z, cyc, init, out, why); bool expect = cyc || tot >= L;
      std::string zs; for (size_t i = 0; i < z.size() && i < 40; i++) zs += std::to_string(z[i]) + ","; zs += cyc ? " repeated" : ""; zs += init ? " first given at construction" : "";
      if (!why.empty()) fail(why + " buffers " + zs + " " + show(v, o));
      if (ok != expect) fail(std::string(ok ? "success reported" : "failure reported") + " buffers " + zs + " length " + std::to_string(L) + " " + show(v, o));
      if (ok ? out != got : got.compare(0, out.size(), out) != 0) fail("buffers " + zs + " " + show(v, o) + " stored " + esc(out) + " expected " + (ok ? "" : "a prefix of ") + esc(got));
      if (!ok && out.size() != tot) fail("buffers " + zs + " not filled: stored " + std::to_string(out.size()) + " " + show(v, o)); };
    size_t lim = std::min<size_t>(L + 1, 24); for (size_t z = 1; z <= lim; z++) { ck({z}, true, r.chance(50)); }
    if (L > 1) for (int k = 0; k < 12; k++) { size_t a = 1 + r.below(uint32_t(L - 1)); ck({a, L - a}, false, true); ck({a}, false, r.chance(50)); ck({a, L}, false, r.chance(50)); }
    for (int k = 0; k < 6; k++) { std::vector<size_t> z; int m = 1 + r.below(6); while (m--) z.push_back(1 + r.below(r.chance(50) ? 4 : 30)); ck(z, true, r.chance(50)); z.resize(1 + r.below(unsigned(z.size()))); ck(z, false, r.chance(50)); } }
  done(); }
