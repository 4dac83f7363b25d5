// Harness TU: makes the compiler emit the integer and floating point handlers.  No logic of its own.
#include <json_struct/json_struct.h>
#define I(T, N) JS::Error h_to_##N(T &v, JS::ParseContext &c) { return JS::TypeHandler<T>::to(v, c); } void h_from_##N(const T &v, JS::Token &t, JS::Serializer &z) { JS::TypeHandler<T>::from(v, t, z); }
I(int8_t, i8) I(uint8_t, u8) I(int16_t, i16) I(uint16_t, u16) I(int32_t, i32) I(uint32_t, u32) I(int64_t, i64) I(uint64_t, u64)
I(long long, ll) I(unsigned long long, ull) I(char, ch) I(double, d) I(float, f)
