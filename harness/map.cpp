// Harness TU: makes the compiler emit the functions of JS::Map and the JsonTokens/Map handlers.  U stands for an arbitrary target
// type: its handler is declared, not defined.  No logic of its own.  NDEBUG: the release behaviour is verified.
#define NDEBUG
#include <memory>
#include <optional>
#include <json_struct/json_struct.h>
struct U { long x; };
namespace JS { template <> struct TypeHandler<U> { static Error to(U &, ParseContext &); static void from(const U &, Token &, Serializer &); }; }
void h_inc(JS::Map::It &i) { ++i; }
JS::Map::It h_begin(const JS::Map &m) { return m.begin(); }
JS::Map::It h_end(const JS::Map &m) { return m.end(); }
bool h_eq(const JS::Map::It &a, const JS::Map::It &b) { return (a == b) + 2 * (a != b); }
const JS::Token &h_deref(JS::Map::It &a) { return *a; }
const JS::Token *h_arrow(JS::Map::It &a) { return a.operator->(); }
JS::Map::It h_find(const JS::Map &m, const std::string &n) { return m.find(n); }
bool h_cmp(const JS::DataRef &a, const std::string &b) { return JS::Internal::compareEscapedDataRefWithString(a, b); }
JS::Error h_cast(const JS::Map &m, JS::ParseContext &c, U &u) { return m.castToType(c, u); }
JS::Error h_cast_it(const JS::Map &m, const JS::Map::It &i, JS::ParseContext &c, U &u) { return m.castToType(i, c, u); }
JS::Error h_cast_name(const JS::Map &m, const std::string &n, JS::ParseContext &c, U &u) { return m.castToType(n, c, u); }
std::vector<JS::JsonMeta> h_meta(const JS::JsonTokens &t) { return JS::metaForTokens(t); }
JS::Error h_to(JS::Map &v, JS::ParseContext &c) { return JS::TypeHandler<JS::Map>::to(v, c); }
void h_from(const JS::Map &v, JS::Token &t, JS::Serializer &z) { JS::TypeHandler<JS::Map>::from(v, t, z); }
void h_tfrom(const JS::JsonTokens &v, JS::Token &t, JS::Serializer &z) { JS::TypeHandler<JS::JsonTokens>::from(v, t, z); }
