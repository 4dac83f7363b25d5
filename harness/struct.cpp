// Harness TU: makes the compiler emit the struct handlers for structs that use every feature of the mapping: several members,
// names that are prefixes of each other, renamed members, aliases (one of them equal to another member's name), optional members,
// two super classes, one of which has a super class itself.  U stands for an arbitrary element type: its handler is declared, not
// defined.  No logic of its own.
#include <memory>
#include <optional>
#include <json_struct/json_struct.h>
struct U { long x; };
namespace JS { template <> struct TypeHandler<U> { static Error to(U &, ParseContext &); static void from(const U &, Token &, Serializer &); }; }
struct B0 { U deep; JS_OBJ(deep); };
struct B1 : B0 { U one; JS::Optional<U> two; JS_OBJ_SUPER(JS_SUPER(B0), one, two); };
struct B2 { U three; JS_OBJECT(JS_MEMBER_ALIASES(three, "tri", "a")); };
struct S : B1, B2 { U a; U ab; JS::Optional<U> opt; U ren; U al;
  JS_OBJECT_WITH_SUPER(JS_SUPER(B1, B2), JS_MEMBER(a), JS_MEMBER(ab), JS_MEMBER(opt), JS_MEMBER_WITH_NAME(ren, "other name"), JS_MEMBER_ALIASES(al, "alias", "one")); };
struct P { U x; U y; JS_OBJ(x, y); };
struct Q { U x; JS_OBJ(x); };
JS::Error h_to(S &v, JS::ParseContext &c) { return JS::TypeHandler<S>::to(v, c); }
void h_from(const S &v, JS::Token &t, JS::Serializer &z) { JS::TypeHandler<S>::from(v, t, z); }
JS::Error h_pto(P &v, JS::ParseContext &c) { return JS::TypeHandler<P>::to(v, c); }
void h_pfrom(const P &v, JS::Token &t, JS::Serializer &z) { JS::TypeHandler<P>::from(v, t, z); }
JS::Error h_qto(Q &v, JS::ParseContext &c) { return JS::TypeHandler<Q>::to(v, c); }
void h_qfrom(const Q &v, JS::Token &t, JS::Serializer &z) { JS::TypeHandler<Q>::from(v, t, z); }
