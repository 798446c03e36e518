#include "ron/text.hpp"
using namespace ron;
extern "C" {
void h_atom(Atom* out, const TextFrame::Cursor* c, fsize_t i) { *out = c->atom(i); }
void h_id(Atom* out, const TextFrame::Cursor* c) { *out = c->id(); }
void h_ref(Atom* out, const TextFrame::Cursor* c) { *out = c->ref(); }
void h_int(Atom* out, int64_t v) { *out = Atom::Integer(v); }
void h_float(Atom* out, double v) { *out = Atom::Float(v); }
unsigned h_type(const Atom* a) { return a->type(); }
const void* h_data(TextFrame::Cursor* c) { return &c->data(); }
const void* h_op(const TextFrame::Cursor* c) { return &c->op(); }
}
