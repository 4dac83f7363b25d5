// Bounded falsifier: skipping values no member wants, and through the scope interface.
#include "common.h"
struct In { int p = -1; int q = -1; JS_OBJ(p, q); };
struct S { int before = -1; int after = -1; In in; std::vector<In> list; JS_OBJ(before, after, in, list); };
static std::string nest(Rng &r, int d) { std::string o, c;
  for (int i = 0; i < d; i++) { if (i && r.chance(20)) { std::string x; gen_val(r, x, 2); if (c[0] == '}') o += "\"y\":"; o += x + ","; }
    if (!c.empty() && c[0] == '}') o += "\"k\":"; bool ob = r.chance(50); o += ob ? '{' : '['; c.insert(0, 1, ob ? '}' : ']');
    if (r.chance(20)) { if (ob) o += "\"z\":"; o += r.chance(50) ? "[]," : "{},"; } }
  if (c[0] == '}') o += "\"e\":1"; else o += "0"; return o + c; }
static void one(const std::string &x, Rng &r, bool cuts) { g_cases++;
  std::string s = "{\"before\":11,\"unknown\":" + x + ",\"after\":22,\"in\":{\"p\":1,\"w\":" + x + ",\"q\":2},\"list\":[{\"q\":3,\"w\":" + x + "},{\"w\":" + x + ",\"p\":4}]}";
  auto run = [&](const std::string &t, size_t cut, S &v) { JS::ParseContext pc; std::string a = t.substr(0, cut), b = t.substr(cut); pc.tokenizer.addData(a.data(), a.size()); if (!b.empty()) pc.tokenizer.addData(b.data(), b.size()); return pc.parseTo(v); };
  auto good = [&](size_t cut) { S v; JS::Error e = run(s, cut, v); std::string at = " text=" + esc(s) + " cut=" + std::to_string(cut); if (e != JS::Error::NoError) fail("unknown member makes parsing fail, error " + std::to_string(int(e)) + at);
    if (v.before != 11 || v.after != 22 || v.in.p != 1 || v.in.q != 2 || v.list.size() != 2 || v.list[0].q != 3 || v.list[0].p != -1 || v.list[1].p != 4 || v.list[1].q != -1) fail("members next to an unknown one" + at); };
  good(s.size()); for (int i = 0; i < (cuts ? 8 : 1); i++) good(1 + r.below(uint32_t(s.size() - 1)));
  for (int i = 0; i < (cuts ? 8 : 1); i++) { size_t n = r.below(uint32_t(s.size())); S v; JS::Error e = run(s.substr(0, n), n, v); if (e == JS::Error::NoError) fail("text cut short accepted: " + esc(s.substr(0, n))); }
  { std::string t = "{\"unknown\":" + x; S v; size_t n = t.size(); if (run(t, n, v) == JS::Error::NoError) fail("text cut short accepted: " + esc(t)); }
  // scope interface: read k tokens of the value, then leave it
  std::string t = "[7," + x + ",8]"; 
  for (int k = 0; k < 6; k++) { JS::Tokenizer tk; tk.addData(t.data(), t.size()); JS::Token o; std::string at = " after " + std::to_string(k) + " tokens, text=" + esc(t);
    for (int i = 0; i < 3; i++) if (tk.nextToken(o) != JS::Error::NoError) fail("token" + at);
    JS::Type ty = o.value_type; tk.pushScope(ty); JS::Error e = JS::Error::NoError; for (int i = 0; i < k && e == JS::Error::NoError; i++) e = tk.nextToken(o);
    if (e != JS::Error::NoError && e != JS::Error::ScopeHasEnded) fail("token in scope" + at);
    if (e == JS::Error::ScopeHasEnded && tk.nextToken(o) != JS::Error::ScopeHasEnded) fail("token delivered after the end of the scope" + at);
    e = tk.goToEndOfScope(o); if (e != JS::Error::NoError) fail("goToEndOfScope error " + std::to_string(int(e)) + at);
    if ((ty == JS::Type::ObjectStart || ty == JS::Type::ArrayStart) && tk.nextToken(o) != JS::Error::ScopeHasEnded) fail("scope not ended" + at);
    tk.popScope(); if (tk.nextToken(o) != JS::Error::NoError || std::string(o.value.data, o.value.size) != "8") fail("token after the scope is " + esc(std::string(o.value.data, o.value.size)) + at);
    if (tk.nextToken(o) != JS::Error::NoError || o.value_type != JS::Type::ArrayEnd) fail("end after the scope" + at); }
  if (x[0] == '{' || x[0] == '[') { std::string u = "[7," + x.substr(0, x.size() - 1); JS::Tokenizer tk; tk.addData(u.data(), u.size()); JS::Token o; for (int i = 0; i < 3; i++) (void)tk.nextToken(o); tk.pushScope(o.value_type); if (tk.goToEndOfScope(o) == JS::Error::NoError) fail("scope cut short accepted: " + esc(u)); } }
int main(int argc, char **argv) {
  Clock ck(arg_budget(argc, argv)); Rng r(arg_seed(argc, argv)); guard_install(unsigned(arg_budget(argc, argv)) + 60);
  for (const char *x : {"1", "-2.5e3", "\"\"", "\"}]\"", "\"{[\\\"\"", "null", "true", "{}", "[]", "[[]]", "[{}]", "{\"a\":[]}", "{\"a\":{}}", "[[],[]]", "[{},{}]", "{\"a\":{},\"b\":{}}", "[[],{}]", "[{},[]]", "{\"unknown\":1,\"after\":99}", "[\"]\",\"[\",\"{\",\"}\"]", "{\"}\":\"{\",\"]\":\"[\"}", "[[[[]]],[[{}]]]", "{\"after\":{\"after\":[{\"after\":5}]}}"}) one(x, r, true);
  for (int d = 1; d < 40; d++) for (int k = 0; k < 4; k++) one(nest(r, d), r, true);
  for (int d : {100, 127, 128, 129, 255, 256, 257, 300, 600}) one(nest(r, d), r, false);
  for (int d : {65535, 65536, 70000}) { if (ck.over()) break; one(std::string(size_t(d), '[') + std::string(size_t(d), ']'), r, false); }
  while (!ck.over()) { if (r.chance(60)) { std::string x; gen_val(r, x, 5); one(x, r, true); } else one(nest(r, 1 + int(r.below(r.chance(10) ? 300 : 24))), r, true); }
  done(); }
