#include <json_struct/json_struct.h>
JS::Error h_to(std::string &s, JS::ParseContext &c) { return JS::TypeHandler<std::string>::to(s, c); }
void h_from(const std::string &s, JS::Token &t, JS::Serializer &z) { JS::TypeHandler<std::string>::from(s, t, z); }
