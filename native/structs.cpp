// Bounded falsifier: struct mapping (names, aliases, super classes, optional members, unknown and missing members, round trip).
#include "common.h"
#include <memory>
#include <optional>
#include <algorithm>
struct N { int n1 = 0; std::string n2; JS_OBJ(n1, n2); };
struct B0 { int deep = 0; int deeper = 0; JS_OBJ(deep, deeper); };
struct B1 : B0 { int one = 0; JS::Optional<int> two; JS_OBJ_SUPER(JS_SUPER(B0), one, two); };
struct B2 { std::string three; JS_OBJECT(JS_MEMBER_ALIASES(three, "tri", "a")); };
struct B3 { int four = 0; std::optional<int> five; JS_OBJ(four, five); };
struct S : B1, B2, B3 { int a = 0; int ab = 0; JS::OptionalChecked<int> opt; int ren = 0; int al = 0; N nested; std::vector<N> list; std::unique_ptr<int> up;
  JS_OBJECT_WITH_SUPER(JS_SUPER(B1, B2, B3), JS_MEMBER(a), JS_MEMBER(ab), JS_MEMBER(opt), JS_MEMBER_WITH_NAME(ren, "other name"), JS_MEMBER_ALIASES(al, "alias", "one"), JS_MEMBER(nested), JS_MEMBER(list), JS_MEMBER_WITH_NAME_AND_ALIASES(up, "u-p", "up", "UP")); };
// slots: name, aliases, required, reported name
struct Slot { const char *name; std::vector<const char *> al; bool req; const char *rep; int kind; }; // kind 0 int 1 string 2 nested 3 list
static const std::vector<Slot> slots = {{"a", {}, true, "a", 0}, {"ab", {}, true, "ab", 0}, {"opt", {}, false, "", 0}, {"other name", {}, true, "other name", 0}, {"al", {"alias", "one"}, true, "al", 0}, {"nested", {}, true, "nested", 2}, {"list", {}, true, "list", 3}, {"u-p", {"up", "UP"}, false, "", 0},
  {"one", {}, true, "B1::one", 0}, {"two", {}, false, "", 0}, {"deep", {}, true, "B0::deep", 0}, {"deeper", {}, true, "B0::deeper", 0}, {"three", {"tri", "a"}, true, "B2::three", 1}, {"four", {}, true, "B3::four", 0}, {"five", {}, false, "", 0}};
enum { iA, iAB, iOPT, iREN, iAL, iNEST, iLIST, iUP, iONE, iTWO, iDEEP, iDEEPER, iTHREE, iFOUR, iFIVE, NSLOT };
static int find(const std::string &n) { for (size_t i = 0; i < slots.size(); i++) if (n == slots[i].name) return int(i); for (size_t i = 0; i < slots.size(); i++) for (auto x : slots[i].al) if (n == x) return int(i); return -1; }
static std::string show(const S &v, int i) { switch (i) { case iA: return std::to_string(v.a); case iAB: return std::to_string(v.ab); case iOPT: return v.opt.assigned ? std::to_string(v.opt.data) : "-"; case iREN: return std::to_string(v.ren); case iAL: return std::to_string(v.al); case iNEST: return std::to_string(v.nested.n1) + "/" + v.nested.n2;
  case iLIST: { std::string o = "["; for (auto &x : v.list) o += std::to_string(x.n1) + "/" + x.n2 + ";"; return o; } case iUP: return v.up ? std::to_string(*v.up) : "-"; case iONE: return std::to_string(v.one); case iTWO: return std::to_string(v.two.data); case iDEEP: return std::to_string(v.deep); case iDEEPER: return std::to_string(v.deeper); case iTHREE: return v.three; case iFOUR: return std::to_string(v.four); default: return v.five ? std::to_string(*v.five) : "-"; } }
static void one(Rng &r) { g_cases++;
  std::vector<std::string> names; for (auto &s : slots) if (r.chance(70)) names.push_back(!s.al.empty() && r.chance(40) ? s.al[r.below(uint32_t(s.al.size()))] : s.name);
  int extra = r.chance(50) ? 0 : int(r.below(3)); static const char *un[] = {"abc", "A", "b", "other", "other nam", "other name ", "aliasx", "alia", "on", "B1", "B1::one", "u_p", "Up", "deepe", "deeperr", "tri ", "nested2", "x", "n1", "n2", "assigned", "data"}; std::vector<std::string> unknown;
  for (int i = 0; i < extra; i++) names.push_back(un[r.below(sizeof un / sizeof *un)]);
  if (r.chance(15) && !names.empty()) names.push_back(names[r.below(uint32_t(names.size()))]);
  for (size_t i = names.size(); i > 1; i--) std::swap(names[i - 1], names[r.below(uint32_t(i))]);
  bool am = r.chance(70), au = r.chance(70), tr = r.chance(80);
  S v; v.a = v.ab = v.ren = v.al = v.one = v.deep = v.deeper = v.four = -7; v.two.data = -7; v.three = "old"; v.nested.n1 = -7; v.nested.n2 = "o"; v.list.resize(1); v.five = -7;
  std::vector<std::string> want(NSLOT); for (int i = 0; i < NSLOT; i++) want[i] = show(v, i);
  std::vector<bool> got(NSLOT); std::string s = "{"; bool stop = false; int nestmiss = 0;
  for (size_t k = 0; k < names.size(); k++) { if (k) s += ','; gen_ws(r, s); s += '"' + names[k] + "\":"; gen_ws(r, s); int i = find(names[k]); int x = int(r.below(1000));
    if (i < 0) { if (!stop) unknown.push_back(names[k]); if (!am) stop = true; gen_val(r, s, 2); continue; }
    std::string w; switch (slots[size_t(i)].kind) { case 0: s += w = std::to_string(x); break; case 1: w = "t" + std::to_string(x); s += '"' + w + '"'; break;
      case 2: w = std::to_string(x) + "/q"; s += "{\"n2\":\"q\",\"n1\":" + std::to_string(x) + "}"; break;
      default: { int n = int(r.below(4)); w = "["; s += '['; for (int j = 0; j < n; j++) { if (j) s += ','; s += "{\"n1\":" + std::to_string(x + j) + ",\"n2\":\"e\"}"; w += std::to_string(x + j) + "/e;"; } s += ']'; } }
    if (!stop) { want[size_t(i)] = w; got[size_t(i)] = true; } }
  (void)nestmiss; gen_ws(r, s); s += '}'; std::string at = " text=" + esc(s) + " allow_missing=" + std::to_string(am) + " allow_unassigned=" + std::to_string(au) + " track=" + std::to_string(tr);
  JS::ParseContext pc; size_t cut = r.chance(50) ? s.size() : 1 + r.below(uint32_t(s.size() - 1)); std::string p1 = s.substr(0, cut), p2 = s.substr(cut); pc.tokenizer.addData(p1.data(), p1.size()); if (!p2.empty()) pc.tokenizer.addData(p2.data(), p2.size()); at += " cut=" + std::to_string(cut);
  pc.allow_missing_members = am; pc.allow_unasigned_required_members = au; pc.track_member_assignement_state = tr;
  JS::Error e = pc.parseTo(v); std::vector<std::string> req; if (!stop) for (int i = 0; i < NSLOT; i++) if (slots[size_t(i)].req && !got[size_t(i)]) req.push_back(slots[size_t(i)].rep);
  JS::Error ex = stop ? JS::Error::MissingPropertyMember : (!req.empty() && !au) ? JS::Error::UnassignedRequiredMember : JS::Error::NoError;
  if (e != ex) fail("error " + std::to_string(int(e)) + " expected " + std::to_string(int(ex)) + at);
  for (int i = 0; i < NSLOT; i++) if (show(v, i) != want[size_t(i)]) fail(std::string("member ") + slots[size_t(i)].name + " is " + show(v, i) + " expected " + want[size_t(i)] + at);
  if (!tr) { unknown.clear(); req.clear(); }
  if (pc.missing_members != unknown) fail("unknown names reported differ" + at); auto q = pc.unassigned_required_members; std::sort(q.begin(), q.end()); std::sort(req.begin(), req.end()); if (q != req) { std::string o; for (auto &x : q) o += x + " "; fail("unassigned members reported: " + o + at); }
  // round trip
  for (bool compact : {false, true}) { JS::SerializerOptions so; if (compact) so.setStyle(JS::SerializerOptions::Compact); std::string o = JS::serializeStruct(v, so); S w; JS::ParseContext c2(o.data(), o.size()); c2.allow_missing_members = false; JS::Error e2 = c2.parseTo(w); if (e2 != JS::Error::NoError) fail("written struct does not parse, error " + std::to_string(int(e2)) + " " + esc(o)); for (int i = 0; i < NSLOT; i++) if (show(v, i) != show(w, i)) fail(std::string("round trip of member ") + slots[size_t(i)].name + " " + esc(o)); } }
// nested strictness: an unknown or missing member inside a member
static void nested() { for (int k = 0; k < 4; k++) { g_cases++; std::string in = k == 0 ? "{\"n1\":1,\"zz\":5,\"n2\":\"x\"}" : k == 1 ? "{\"n1\":1}" : k == 2 ? "{\"zz\":{\"n1\":5},\"n1\":1,\"n2\":\"x\"}" : "[]"; std::string s = "{\"nested\":" + in + ",\"n1\":3,\"a\":2}";
    S v; JS::ParseContext pc(s.data(), s.size()); pc.allow_missing_members = false; JS::Error e = pc.parseTo(v); if (e == JS::Error::NoError) fail("nested unknown member accepted " + s); if (v.a != 0) fail("parsing continued after a nested error " + s);
    if (k < 2) { S w; JS::ParseContext p2(s.data(), s.size()); p2.allow_unasigned_required_members = false; JS::Error e2 = p2.parseTo(w); if (e2 != JS::Error::UnassignedRequiredMember) fail("required member of a nested struct " + s); } } }
int main(int argc, char **argv) {
  Clock ck(arg_budget(argc, argv)); Rng r(arg_seed(argc, argv)); guard_install(unsigned(arg_budget(argc, argv)) + 60); nested();
  while (!ck.over()) one(r);
  done(); }
