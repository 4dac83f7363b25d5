// Harness TU: makes the compiler emit JS::reformat.  No logic of its own.
#include <json_struct/json_struct.h>
JS::Error h_reformat(const std::string &in, std::string &out, const JS::SerializerOptions &o) { return JS::reformat(in, out, o); }
JS::Error h_reformat_bytes(const char *p, size_t n, std::string &out, const JS::SerializerOptions &o) { return JS::reformat(p, n, out, o); }
