// Harness TU: makes the compiler emit the skipping functions.  No logic of its own.
#include <json_struct/json_struct.h>
bool h_skip(JS::ParseContext &c) { return JS::Internal::skipArrayOrObject(c); }
void h_push(JS::Tokenizer &t, JS::Type y) { t.pushScope(y); }
void h_pop(JS::Tokenizer &t) { t.popScope(); }
JS::Error h_go(JS::Tokenizer &t, JS::Token &k) { return t.goToEndOfScope(k); }
