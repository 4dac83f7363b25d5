// Bounded falsifier: after resetData the tokenizer delivers what a new tokenizer delivers for the same data, whatever it read before.
#include "common.h"
#include <deque>
static std::deque<std::string> g_store; static const std::string &hold(const std::string &s) { g_store.push_back(s); return g_store.back(); }
static void opts(JS::Tokenizer &t, int o) { t.allowAsciiType(o & 1); t.allowNewLineAsTokenDelimiter(o & 2); t.allowSuperfluousComma(o & 4); t.allowComments(o & 8); }
static std::string show(const JS::Token &k) { return std::to_string(int(k.value_type)) + "/" + std::to_string(int(k.name_type)) + ":" + std::string(k.name.data, k.name.size) + "=" + std::string(k.value.data, k.value.size) + ";"; }
static std::string toks(JS::Tokenizer &t, size_t limit) { std::string o; for (size_t i = 0; i < limit; i++) { JS::Token k; JS::Error e = t.nextToken(k); if (e != JS::Error::NoError) return o + "E" + std::to_string(int(e)); o += show(k); } return o; }
static void before(Rng &r, JS::Tokenizer &t, std::vector<std::string> &keep, const std::vector<JS::Token> &list) { keep.clear(); keep.reserve(8); std::string s = gen_doc(r, 3, r.chance(20)); if (r.chance(40)) mutate(r, s); if (r.chance(70)) s.resize(r.below(uint32_t(s.size() + 1)));
  if (r.chance(15) && list.size() > 1) { t.resetData(&list, r.below(uint32_t(list.size() - 1))); toks(t, r.below(uint32_t(list.size()))); if (r.chance(60)) return; }
  size_t cut = r.below(uint32_t(s.size() + 1)); keep.push_back(s.substr(0, cut)); keep.push_back(s.substr(cut)); const std::string &a = hold(keep[0]), &b = hold(keep[1]); t.addData(a.data(), a.size()); if (r.chance(70)) t.addData(b.data(), b.size());
  size_t n = r.chance(30) ? r.below(6) : 1000; JS::Token k; for (size_t i = 0; i < n; i++) { if (t.nextToken(k) != JS::Error::NoError) break; if (r.chance(5) && k.value_type != JS::Type::ArrayEnd && k.value_type != JS::Type::ObjectEnd) t.pushScope(k.value_type); } }
static std::vector<JS::Token> list_of(const std::string &s) { std::vector<JS::Token> v; JS::Tokenizer t; t.addData(s.data(), s.size()); JS::Token k; while (t.nextToken(k) == JS::Error::NoError) v.push_back(k); return v; }
int main(int argc, char **argv) {
  Clock ck(arg_budget(argc, argv)); Rng r(arg_seed(argc, argv)); guard_install(unsigned(arg_budget(argc, argv)) + 60); static const char *fixed[] = {"{\"b\":2}", "[1,2]", "]", "}", "{}}", "[]]", "[1],2", "1 ", "\"x\" ", "{\"a\":1}}", "{\"a\":1},{\"b\":2}", "", "\"", "b", ":", ","};
  std::string lt = "{\"a\":[1,{\"b\":null}],\"c\":\"x\",\"d\":{\"e\":[]}}"; std::vector<JS::Token> list = list_of(lt);
  while (!ck.over()) { int o = r.chance(60) ? 0 : int(r.below(16)); JS::Tokenizer t; opts(t, o); std::vector<std::string> keep; long released = 0, expect = 0; bool cb = r.chance(30); std::function<void(const char *)> rel = [&](const char *) { released++; }; if (cb) t.setReleaseCallback(rel);
    for (int round = 0; round < 3; round++) { g_cases++; before(r, t, keep, list); released = 0; expect = long(t.registeredBuffers());
      if (r.chance(25)) { size_t i = r.below(uint32_t(list.size())); t.resetData(&list, i); if (cb && released != expect) fail("buffers released " + std::to_string(released) + " of " + std::to_string(expect)); std::string want; for (size_t k = i; k < list.size(); k++) want += show(list[k]); std::string got = toks(t, list.size() - i); if (got != want) fail("token list from " + std::to_string(i) + " after " + esc(keep.empty() ? "" : keep[0] + "|" + keep[1]) + ": " + esc(got) + " expected " + esc(want)); if (r.chance(50)) { std::string x = toks(t, 1); if (x != "E1") fail("after the token list: " + x); } continue; }
      std::string s0; if (r.chance(30)) s0 = fixed[r.below(sizeof fixed / sizeof *fixed)]; else { s0 = gen_doc(r, 3); if (r.chance(30)) mutate(r, s0); } const std::string &s = hold(s0); size_t i = r.chance(80) ? 0 : r.below(uint32_t(s.size() + 1));
      JS::Tokenizer f; opts(f, o); f.addData(s.data() + i, s.size() - i); std::string want = toks(f, 2000); t.resetData(s.data(), s.size(), i); if (cb && released != expect) fail("buffers released " + std::to_string(released) + " of " + std::to_string(expect)); if (t.registeredBuffers() != 1) fail("registered buffers"); std::string got = toks(t, 2000);
      if (got != want) fail("opt=" + std::to_string(o) + " text=" + esc(s) + " from " + std::to_string(i) + " after " + esc(keep.empty() ? "" : keep[0] + "|" + keep[1]) + ": " + esc(got) + " expected " + esc(want)); } g_store.clear(); }
  done(); }
