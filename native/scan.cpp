// Bounded falsifier / replay for the tokenizer's byte scanners: every scanner of the real header, called on random and
// exhaustive small buffers that end at an inaccessible page, against a one-byte-at-a-time reference.
#define OPEN_PRIVATE
#include "common.h"
using JS::Error; using JS::Type;
static bool num(unsigned char c) { return (c >= '0' && c <= '9') || c == '+' || c == '-' || c == '.' || c == 'e' || c == 'E'; }
static bool al(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool asc(unsigned char c) { return al(c) || (c >= '0' && c <= '9') || (c && strchr("_^`/.-", c)); }
static bool ws(unsigned char c) { return c == 0 || c == 9 || c == 10 || c == 13 || c == 32; }
struct Case { std::string s; size_t cur; int esc, opt, top; };   // opt bits: 1 ascii 2 newlines 4 superfluous comma 8 comments 16 expecting
static std::string show(const char *fn, const Case &c) { char b[96]; snprintf(b, sizeof b, "%s cursor=%zu escaped=%d opt=%d top=%d bytes=", fn, c.cur, c.esc, c.opt, c.top); return b + esc(c.s); }
struct Out { int err; size_t pos; int type; int state; bool expecting; bool escd; };
static bool opener(const Case &c, size_t i) { return (c.opt & 8) && c.s[i] == '/' && i + 1 < c.s.size() && c.s[i + 1] == '/'; }
// next significant byte for the white-space-skipping scanners; npos if none
template <class F> static size_t skip(const Case &c, F sig) { size_t i = c.cur; while (i < c.s.size()) { if (opener(c, i)) { size_t n = c.s.find('\n', i + 2); if (n == std::string::npos) return n; i = (c.opt & 2) ? n : n + 1; if (i == c.cur) return i; continue; } if (sig((unsigned char)c.s[i])) return i; i++; } return std::string::npos; }
static void setup(JS::Tokenizer &t, const Case &c) { t.resetForNewToken(); t.allow_ascii_properties = c.opt & 1; t.allow_new_lines = (c.opt & 2) != 0; t.allow_superfluous_comma = (c.opt & 4) != 0; t.allow_comments = (c.opt & 8) != 0; t.expecting_prop_or_anonymous_data = (c.opt & 16) != 0; t.cursor_index = c.cur; t.is_escaped = c.esc; t.container_stack.clear(); if (c.top) t.container_stack.push_back(c.top == 1 ? Type::ObjectStart : Type::ArrayStart); }
static Guard g1;
static void bad(const char *fn, const Case &c, const std::string &why) { fail(show(fn, c) + " :: " + why); }
static void check(const Case &c, int which) {
  g_cases++; static const char *names[] = {"string end", "number end", "identifier end", "comment end", "value start", "delimiter", "token end"}; g_now = show(names[which], c);
  const size_t N = c.s.size(), NP = std::string::npos;
  char *p = g1.at_end(c.s); JS::DataRef dr(p, N); JS::Tokenizer t; setup(t, c); size_t ahead = 0; Type ty = Type::Error; Error e;
  char b[128];
  auto res = [&](Error want, size_t pos) { size_t at = t.cursor_index + ahead; if (e != want || (pos != NP && at != pos)) { snprintf(b, sizeof b, "got error %d position %zu, expected error %d position %zd", int(e), at, int(want), ssize_t(pos)); bad(names[which], c, b); } };
  switch (which) {
  case 0: { e = t.findStringEnd(dr, &ahead); size_t i = c.cur; bool es = c.esc; while (i < N && (es || c.s[i] != '"')) { es = !es && c.s[i] == '\\'; i++; }
    if (i < N) { res(Error::NoError, i + 1); if (t.is_escaped) bad(names[0], c, "escape flag left set"); } else { res(Error::NeedMoreData, NP); if (bool(t.is_escaped) != es) bad(names[0], c, "escape flag at end of buffer is wrong"); } break; }
  case 1: case 2: { size_t i = c.cur; while (i < N && (which == 1 ? num(c.s[i]) : asc(c.s[i]))) i++; t.property_type = which == 1 ? Type::Number : Type::Ascii;
    e = which == 1 ? t.findNumberEnd(dr, &ahead) : t.findAsciiEnd(dr, &ahead); if (i < N && !(which == 2 && c.s[i] == 0)) res(Error::NoError, i); else res(Error::NeedMoreData, NP); break; }
  case 3: { e = t.skipComment(dr, &ahead); size_t n = c.s.find('\n', c.cur); if (n == NP) res(Error::NeedMoreData, NP); else res(Error::NoError, (c.opt & 2) ? n : n + 1); break; }
  case 4: { size_t i = skip(c, [&](unsigned char ch) { return !ws(ch) && !strchr("\\/^_`.", ch); }); e = t.findStartOfNextValue(&ty, dr, &ahead);
    if (i == NP) { res(Error::NeedMoreData, NP); break; } unsigned char ch = c.s[i]; Type w = ch == '"' ? Type::String : ch == '{' ? Type::ObjectStart : ch == '}' ? Type::ObjectEnd : ch == '[' ? Type::ArrayStart : ch == ']' ? Type::ArrayEnd : (isdigit(ch) || ch == '+' || ch == '-') ? Type::Number : al(ch) ? Type::Ascii : Type::Error;
    if (w == Type::Error) res(Error::EncounteredIllegalChar, i); else { res(Error::NoError, i); if (ty != w) bad(names[4], c, "wrong token type"); } break; }
  case 5: { int st0 = int(t.token_state); e = t.findDelimiter(dr, &ahead); if (!c.top) { res(Error::IllegalPropertyType, NP); break; }
    size_t i = skip(c, [&](unsigned char ch) { return !ws(ch) || ((c.opt & 2) && ch == '\n'); }); if (i == NP) { res(Error::NeedMoreData, NP); break; } char ch = c.s[i]; int wt = st0;
    if (ch == ':' && c.top == 1) { res(Error::NoError, i + 1); wt = int(JS::Tokenizer::InTokenState::FindingData); } else if ((ch == ',' || ch == '\n') && c.top == 2) { res(Error::NoError, i + 1); wt = int(JS::Tokenizer::InTokenState::FindingName); }
    else if (ch == ']' && c.top == 2) { res(Error::NoError, i); wt = int(JS::Tokenizer::InTokenState::FindingName); } else res(Error::ExpectedDelimiter, NP);
    if (int(t.token_state) != wt) bad(names[5], c, "wrong state afterwards"); break; }
  case 6: { e = t.findTokenEnd(dr, &ahead); bool x = (c.opt & 16) != 0; if (!c.top) { res(Error::NoError, c.cur); break; }
    size_t i = skip(c, [&](unsigned char ch) { return !ws(ch) || ((c.opt & 2) && ch == '\n'); }); if (i == NP) { res(Error::NeedMoreData, NP); break; } char ch = c.s[i];
    if (ch == ',') { res(Error::NoError, i + 1); x = true; } else if (ch == ']' || ch == '}') res(Error::NoError, i); else if (ch == '\n') res(Error::NoError, i + 1); else res(Error::InvalidToken, i + 1);
    if (t.expecting_prop_or_anonymous_data != x) bad(names[6], c, "value-expected flag wrong"); break; } }
}
int main(int argc, char **argv) {
  Clock ck(arg_budget(argc, argv)); Rng r(arg_seed(argc, argv)); guard_install(unsigned(arg_budget(argc, argv)) + 60);
  static const char *alph[7] = {"\"\\a", "0a9+-.eE ", "aZ0_^`/.- \"", "a\n/ ", " \t\n\r/\\^_`.\"{}[]1a-+\x01", " \t\n\r/:,]}[x", " \t\n\r/:,]}[x"};
  // exhaustive over every single interesting position in runs of filler around the block sizes
  static const char fill[7] = {'a', '5', 'k', 'x', ' ', ' ', ' '};
  for (int w = 0; w < 7; w++) for (int n = 0; n <= 70; n++) for (int k = 0; k <= n; k++) { Case c; c.cur = 0; c.esc = 0; c.opt = 0; c.top = 2;
    if (k == n) { c.s = std::string(size_t(n), fill[w]); for (c.cur = 0; c.cur <= size_t(n); c.cur += 1 + size_t(n) / 3) check(c, w); continue; }
    for (int b = 0; b < 256; b++) { if (n > 34 && b > 32 && b < 127 && (b * 7 + n) % 5) continue; c.s = std::string(size_t(n), fill[w]); c.s[size_t(k)] = char(b); c.cur = 0; check(c, w); if (w == 0) { c.esc = 1; check(c, w); c.esc = 0; } else if (b == 10) { c.opt = 2; check(c, w); c.opt = 0; } } if (ck.over()) break; }
  Clock ck2(arg_budget(argc, argv));
  while (!ck2.over()) for (int rep = 0; rep < 200; rep++) { int w = r.below(7); Case c; int n = r.chance(40) ? r.below(20) : 10 + r.below(90); int dens = r.chance(50) ? 5 : 40;
    for (int i = 0; i < n; i++) { if (r.chance(dens)) { const char *a = alph[w]; c.s += r.chance(8) ? char(r.below(256)) : a[r.below(uint32_t(strlen(a)))]; } else c.s += fill[w]; if (w >= 4 && r.chance(3)) c.s += "//"; if (r.chance(2)) c.s += '\n'; if (w == 0 && r.chance(4)) c.s += std::string(1 + r.below(5), '\\'); }
    c.cur = r.chance(60) ? 0 : r.below(uint32_t(c.s.size() + 1)); c.esc = r.chance(30); c.opt = r.below(32); c.top = r.below(3); check(c, w); }
  done(); }
