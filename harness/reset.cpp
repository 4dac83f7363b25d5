// Harness TU: makes the compiler emit the constructor and the reset functions of the tokenizer.  No logic of its own.
#include <json_struct/json_struct.h>
void h_reset_data(JS::Tokenizer &t, const char *p, size_t n, size_t i) { t.resetData(p, n, i); }
void h_reset_tokens(JS::Tokenizer &t, const std::vector<JS::Token> *v, size_t i) { t.resetData(v, i); }
void h_construct(void *p) { new (p) JS::Tokenizer(); }
