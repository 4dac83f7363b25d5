// Harness TU: makes the compiler emit the type handlers for booleans, nullable wrappers and fixed-size containers.
// U stands for an arbitrary element type: its handler is declared, not defined.  No logic of its own.
#include <memory>
#include <json_struct/json_struct.h>
struct U { long x; };
namespace JS { template <> struct TypeHandler<U> { static Error to(U &, ParseContext &); static void from(const U &, Token &, Serializer &); }; }
JS::Error h_bool(bool &b, JS::ParseContext &c) { return JS::TypeHandler<bool>::to(b, c); }
void h_boolf(const bool &b, JS::Token &t, JS::Serializer &s) { JS::TypeHandler<bool>::from(b, t, s); }
#define W(N, ...) JS::Error h_to_##N(__VA_ARGS__ &v, JS::ParseContext &c) { return JS::TypeHandler<__VA_ARGS__>::to(v, c); } void h_from_##N(const __VA_ARGS__ &v, JS::Token &t, JS::Serializer &z) { JS::TypeHandler<__VA_ARGS__>::from(v, t, z); }
W(nullable, JS::Nullable<U>) W(nullablec, JS::NullableChecked<U>) W(optionalc, JS::OptionalChecked<U>) W(optional, JS::Optional<U>) W(uptr, std::unique_ptr<U>) W(sptr, std::shared_ptr<U>)
