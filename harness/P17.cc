#include <new>
#include "ron/ron.hpp"
#include "ron/text.hpp"
using namespace ron;
extern "C" {
const void* h_data(TextFrame::Cursor* c) { return &c->data(); }
const void* h_op(const TextFrame::Cursor* c) { return &c->op(); }
unsigned h_term(const TextFrame::Cursor* c) { return c->term(); }
void h_cursor(TextFrame::Cursor* c, const Slice* s) { new (c) TextFrame::Cursor{*s}; }
unsigned h_chr2term(unsigned char c) { return chr2term(c); }
unsigned h_abc(unsigned char c) { return ABC[c]; }
unsigned h_esc(unsigned char c) { return (Codepoint)TextFrame::decode_esc(c); }
unsigned h_hex(const unsigned char* p) { return TextFrame::decode_hex_cp(Slice{p, 4}); }
unsigned h_size(const Atom* a) { return a->value.cp_size; }
unsigned h_cp(const Atom* a) { return a->value.cp; }
}
