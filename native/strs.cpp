// Bounded falsifier for string decoding / encoding.  mode (argv[3]): dec | enc | all.   Oracle: a table-driven reference codec written here.
#include "common.h"
static int hexv(unsigned char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
static bool u4(const std::string &s, size_t i, unsigned &v) { if (i + 4 > s.size()) return false; v = 0; for (int k = 0; k < 4; k++) { int h = hexv((unsigned char)s[i + k]); if (h < 0) return false; v = v * 16 + unsigned(h); } return true; }
static void put(std::string &o, unsigned cp) { if (cp < 0x80) o += char(cp); else if (cp < 0x800) { o += char(0xc0 | cp >> 6); o += char(0x80 | (cp & 63)); } else if (cp < 0x10000) { o += char(0xe0 | cp >> 12); o += char(0x80 | (cp >> 6 & 63)); o += char(0x80 | (cp & 63)); } else { o += char(0xf0 | cp >> 18); o += char(0x80 | (cp >> 12 & 63)); o += char(0x80 | (cp >> 6 & 63)); o += char(0x80 | (cp & 63)); } }
static std::string ref_dec(const std::string &s) { std::string o; size_t i = 0;
  while (i < s.size()) { if (s[i] != '\\') { o += s[i++]; continue; }
    if (i + 1 >= s.size()) { i++; continue; }
    unsigned char c = (unsigned char)s[i + 1]; const char *k = "bfnrt\"\\/", *v = "\b\f\n\r\t\"\\/"; const char *p = c ? strchr(k, c) : nullptr; unsigned a, b;
    if (p) { o += v[p - k]; i += 2; }
    else if (c == 'u' && u4(s, i + 2, a)) { if (a >= 0xd800 && a <= 0xdbff && i + 7 < s.size() && s[i + 6] == '\\' && s[i + 7] == 'u' && u4(s, i + 8, b) && b >= 0xdc00 && b <= 0xdfff) { put(o, 0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00)); i += 12; } else { put(o, a); i += 6; } }
    else { o += '\\'; o += char(c); i += 2; } }
  return o; }
static std::string ref_enc(const std::string &s) { std::string o; char b[8]; for (unsigned char c : s) { const char *k = "\b\t\n\f\r\"\\", *v = "btnfr\"\\"; const char *p = c ? strchr(k, c) : nullptr; if (p) { o += '\\'; o += v[p - k]; } else if (c < 0x20) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += char(c); } return o; }
static Guard g1;
static void t_dec(const std::string &raw) { g_cases++; g_now = "decode " + esc(raw);
  std::string want = ref_dec(raw);
  for (int w = 0; w < 2; w++) { JS::ParseContext pc; pc.token.value.data = w ? g1.at_start(raw) : g1.at_end(raw); pc.token.value.size = raw.size(); pc.token.value_type = JS::Type::String;
    std::string got = w ? "something that was there before, long enough to be on the heap" : ""; JS::Error e = JS::TypeHandler<std::string>::to(got, pc);
    if (got != want || e != JS::Error::NoError) fail("decode raw=" + esc(raw) + " want=" + esc(want) + " got=" + esc(got) + " err=" + std::to_string(int(e))); } }
struct One { std::string s; std::map<std::string, std::string> m; JS_OBJ(s, m); };
// full path: parse a document holding the raw text as value and as map key
static bool closed(const std::string &raw) { size_t i = 0; while (i < raw.size()) { if (raw[i] == '"' || raw[i] == 0) return false; if (raw[i] == '\\') { if (i + 1 >= raw.size()) return false; i += 2; } else i++; } return true; }
static void t_doc(const std::string &raw) { if (!closed(raw)) return; g_cases++; std::string doc = "{\"s\":\"" + raw + "\",\"m\":{\"" + raw + "\":\"" + raw + "\"}}"; g_now = "document " + esc(doc);
  char *p = g1.at_end(doc); JS::ParseContext pc(p, doc.size()); One o; JS::Error e = pc.parseTo(o); std::string want = ref_dec(raw);
  if (e != JS::Error::NoError) fail("document " + esc(doc) + " is rejected with " + std::to_string(int(e)));
  if (o.s != want) fail("document " + esc(doc) + " value decoded as " + esc(o.s) + " want " + esc(want));
  if (o.m.size() != 1 || o.m.begin()->first != want || o.m.begin()->second != want) fail("document " + esc(doc) + " map entry decoded as " + esc(o.m.empty() ? "" : o.m.begin()->first) + "/" + esc(o.m.empty() ? "" : o.m.begin()->second) + " want " + esc(want)); }
static void t_enc(const std::string &s, bool full) { g_cases++; g_now = "encode " + esc(s);
  std::string out = JS::serializeStruct(s, JS::SerializerOptions(JS::SerializerOptions::Compact)), want = "\"" + ref_enc(s) + "\"";
  if (out != want) fail("encode " + esc(s) + " want " + esc(want) + " got " + esc(out));
  if (!full) return;
  One o; o.s = s; if (!s.empty()) o.m[s] = s;
  for (int c = 0; c < 2; c++) { std::string d = JS::serializeStruct(o, JS::SerializerOptions(c ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty));
    if (c) { std::string w = "{\"s\":" + want + ",\"m\":{" + (s.empty() ? std::string() : want + ":" + want) + "}}"; if (d != w) fail("encode as member/key " + esc(s) + " want " + esc(w) + " got " + esc(d)); }
    JS::ParseContext pc(d); One b; JS::Error e = pc.parseTo(b); if (e != JS::Error::NoError || b.s != s || b.m != o.m) fail("round trip of " + esc(s) + " through " + esc(d) + " gives " + esc(b.s) + " key " + esc(b.m.empty() ? "" : b.m.begin()->first) + " err=" + std::to_string(int(e))); } }
int main(int argc, char **argv) {
  Clock ck(arg_budget(argc, argv)); Rng r(arg_seed(argc, argv)); std::string mode = argc > 3 ? argv[3] : "all"; guard_install();
  bool D = mode != "enc", E = mode != "dec";
  const size_t lens[] = {0, 1, 2, 3, 6, 7, 8, 13, 14, 15, 16, 17, 22, 23, 24, 30, 31, 32, 33, 34, 47, 48, 63, 64, 65, 95, 128};
  if (E) { for (size_t n = 0; n <= 70; n++) for (size_t p = 0; p < (n ? n : 1); p++) for (int c = 0; c < 256; c += (n < 40 || c < 0x28 || c == 0x5b) ? 1 : 5) { std::string s(n, 'x'); if (n) s[p] = char(c); t_enc(s, n < 3 && c); if (!n) break; }
    for (size_t n : lens) for (int k = 0; k < 40; k++) { std::string s; while (s.size() < n) s += "\"\\\n\t\x01\x1f\x7f\x80\xffz /"[r.below(12)]; t_enc(s, s.find('\0') == std::string::npos); } }
  if (D) { static const char *piece[] = {"\\n", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\r", "\\t", "\\u0041", "\\u00e9", "\\u20AC", "\\ud83d\\ude00", "\\uD834\\uDD1E", "\\ud83d", "\\ude00", "\\ud83dx", "\\ud83d\\u0041", "\\ud83d\\n", "\\u12", "\\u", "\\u00g1", "\\x", "\\", "\\u007f", "\\u0080", "\\u07ff", "\\u0800", "\\uffff", "\\ud800\\udc00", "\\udbff\\udfff", "\\udbff\\ue000", "\\ud7ff\\udc00", "\\ue000\\udc00", "\\ud800\\udbff", "\\u0001", "\\u001f", "\\U0041", "\\u000A"};
    const int NP = sizeof(piece) / sizeof(*piece);
    for (unsigned v = 0; v < 65536; v++) { char b[16]; snprintf(b, sizeof b, v & 1 ? "\\u%04x" : "\\u%04X", v); t_dec(b); if (v % 257 == 0) t_doc(b); }
    for (unsigned v = 0; v < 65536; v += 3 + v % 5) { char b[32]; snprintf(b, sizeof b, "\\ud8%02x\\u%04x", v & 255, v); t_dec(b); snprintf(b, sizeof b, "\\u%04x\\udc%02x", v, v >> 8); t_dec(b); }
    for (int c = 1; c < 256; c++) { std::string s = "\\"; s += char(c); t_dec(s); t_dec("ab" + s + "cd"); t_doc(s); t_doc("ab" + s + "cd"); }
    for (int c = 0; c < 256; c++) for (int k = 2; k < 6; k++) { std::string s = "\\u00aB"; s[k] = char(c); t_dec(s); }
    for (size_t n : lens) for (int i = 0; i < NP; i++) for (size_t p = 0; p <= n; p += 1 + (n > 40 ? r.below(9) : 0)) { std::string s(p, 'p'); s += piece[i]; s += std::string(n - p, 'q'); t_dec(s); t_doc(s); }
    for (int i = 0; i < NP; i++) for (int j = 0; j < NP; j++) { t_dec(std::string(piece[i]) + piece[j]); t_doc(std::string(piece[i]) + piece[j]); t_doc(std::string("z") + piece[i] + "yy" + piece[j]); }
    while (!ck.over() || g_cases < 1000) { std::string s; int n = r.below(8); for (int i = 0; i < n; i++) { if (r.chance(60)) s += piece[r.below(NP)]; int m = r.chance(20) ? r.below(40) : r.below(4); while (m--) s += char(r.chance(80) ? 'a' + r.below(26) : 1 + r.below(255)); } t_dec(s); t_doc(s); if (E) break; } }
  while (!ck.over()) { std::string s; int n = r.below(r.chance(20) ? 140 : 20); while (n--) s += char(r.chance(50) ? 'a' + r.below(26) : r.chance(50) ? r.below(0x30) : r.below(256)); if (E) t_enc(s, s.find('\0') == std::string::npos); std::string q; for (char c : s) { q += c; if (r.chance(10)) q += "\\u00"; } if (D) { t_dec(q); t_doc(q); } }
  done(); }
