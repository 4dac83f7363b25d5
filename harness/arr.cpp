// Harness TU: makes the compiler emit the array, tuple and container handlers.  U, V and W stand for arbitrary element types: their
// handlers are declared, not defined.  No logic of its own.
#define JS_STL_MAP 1
#define JS_STL_SET 1
#define JS_STL_ARRAY 1
#include <array>
#include <map>
#include <set>
#include <memory>
#include <optional>
#include <json_struct/json_struct.h>
#define OPAQUE(U) struct U { long x; bool operator<(const U &o) const { return x < o.x; } }; namespace JS { template <> struct TypeHandler<U> { static Error to(U &, ParseContext &); static void from(const U &, Token &, Serializer &); }; }
OPAQUE(U) OPAQUE(V) OPAQUE(W)
#define H(n, ...) typedef __VA_ARGS__ n; JS::Error h_to_##n(n &v, JS::ParseContext &c) { return JS::TypeHandler<n>::to(v, c); } void h_from_##n(const n &v, JS::Token &t, JS::Serializer &z) { JS::TypeHandler<n>::from(v, t, z); }
typedef U R3[3]; typedef U R1[1]; typedef U R999[999];
H(A1, R1) H(A3, R3) H(A999, R999)
H(S1, std::array<U, 1>) H(S3, std::array<U, 3>) H(S999, std::array<U, 999>)
H(V1, JS::ArrayVariableContent<U, 1>) H(V3, JS::ArrayVariableContent<U, 3>) H(V999, JS::ArrayVariableContent<U, 999>)
H(T1, std::tuple<U>) H(T3, std::tuple<U, V, W>) H(J1, JS::Tuple<U>) H(J3, JS::Tuple<U, V, W>)
H(Vec, std::vector<U>) H(Set, std::set<U>) H(Map, std::map<std::string, U>) H(OoM, JS::OneOrMany<U>)
