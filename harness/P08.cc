#include "ron/encdec.hpp"
using namespace ron;
extern "C" {
void h_utf8(String* to, Codepoint cp) { utf8append(*to, cp); }
void h_esc(String* to, Codepoint cp) { utf8esc_append(*to, cp); }
void h_utf16(std::u16string* to, Codepoint cp) { utf16append(*to, cp); }
Codepoint h_read8(String::const_iterator* at, String::const_iterator* end) { return utf8read(*at, *end); }
Codepoint h_read16(std::u16string::const_iterator* at, std::u16string::const_iterator* end) { return utf16read(*at, *end); }
}
