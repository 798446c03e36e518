#include "ron/hash.hpp"
using namespace ron;
extern "C" {
void h_hex(String* out, const SHA2* h) { encode<4, HEX_PUNCT>(*out, h->bits_, h->known_bits_); }
void h_base64(String* out, const SHA2* h) { encode<6, BASE_PUNCT>(*out, h->bits_, h->known_bits_); }
SHA2 m_hex(const SHA2* h) { (void)h->hex(); return SHA2::ParseHex(h->hex()); }
String t_hex(const SHA2* h) { return h->hex(); }
String t_base64(const SHA2* h) { return h->base64(); }
SHA2 p_hex(const String* s) { return SHA2::ParseHex(*s); }
SHA2 p_base64(const String* s) { return SHA2::ParseBase64(*s); }
bool h_valid(const String* s) { return SHA2::valid(*s); }
bool h_matches(const SHA2* a, const SHA2* b) { return a->matches(*b); }
bool h_eq(const SHA2* a, const SHA2* b) { return *a == *b; }
bool h_ne(const SHA2* a, const SHA2* b) { return *a != *b; }
bool h_defined(const SHA2* a) { return a->defined(); }
}
