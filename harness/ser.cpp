// Harness TU: makes the compiler emit the serializer.  No logic of its own.
#include <json_struct/json_struct.h>
bool h_token(JS::Serializer &s, const JS::Token &t) { return s.write(t); }
bool h_raw(JS::Serializer &s, const char *d, size_t n) { return s.write(d, n); }
void h_opt(JS::SerializerOptions &o, int d, bool b, unsigned char c, JS::SerializerOptions::Style st) { o.setDepth(d); o.skipDelimiter(b); o.setShiftSize(c); o.setStyle(st); o.setConvertAsciiToString(b); }
void h_ctor(JS::SerializerOptions::Style st) { JS::SerializerOptions o(st); JS::Serializer s; s.setOptions(o); (void)s.options(); }
void h_ctor2(char *b, size_t n) { JS::Serializer s(b, n); s.setBuffer(b, n); (void)s.currentBuffer(); }
std::string h_ss(const int &v) { return JS::serializeStruct(v); }
JS::Error h_re(const std::string &a, std::string &b) { return JS::reformat(a, b); }
