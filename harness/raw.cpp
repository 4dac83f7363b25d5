// Harness TU: makes the compiler emit the raw JSON handlers and the capture functions of the tokenizer.  No logic of its own.
#include <memory>
#include <optional>
#include <json_struct/json_struct.h>
#define H(n) JS::Error h_to_##n(JS::n &v, JS::ParseContext &c) { return JS::TypeHandler<JS::n>::to(v, c); } void h_from_##n(const JS::n &v, JS::Token &t, JS::Serializer &z) { JS::TypeHandler<JS::n>::from(v, t, z); }
H(JsonObject) H(JsonArray) H(JsonObjectOrArray) H(JsonObjectRef) H(JsonArrayRef) H(JsonObjectOrArrayRef) H(JsonTokens)
