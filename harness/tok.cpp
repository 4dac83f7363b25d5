// Harness TU: makes the compiler emit the tokenizer's inline functions.  No logic of its own.
#include <json_struct/json_struct.h>
extern "C" JS::Error h_nextToken(JS::Tokenizer &t, JS::Token &k) { return t.nextToken(k); }
