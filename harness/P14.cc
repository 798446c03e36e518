#include <new>
#include "ron/ron.hpp"
#include "ron/text.hpp"
#include "ron/text-builder.cc"
#include "ron/uuid.cc"
using namespace ron;
using B = TextFrame::Builder;
extern "C" {
void h_new(B* b) { new (b) B{}; }
void h_cursor(B* b, const TextFrame::Cursor* c) { b->AppendOp(*c); }
void h_op(B* b, const Op* c) { b->AppendOp(*c); }
void h_chunk(B* b, unsigned t) { b->EndChunk((TERM)t); }
void h_release(B* b, String* s) { b->Release(*s); }
const void* h_data(const B* b) { return &b->data(); }
const void* h_cur_op(const TextFrame::Cursor* c) { return &c->op(); }
const void* h_op_op(const Op* c) { return &c->op(); }
unsigned h_chr2term(unsigned char c) { return chr2term(c); }
bool h_ambiguous(const Uuid* u) { return u->is_ambiguous(); }
void h_make(Op* o, const Uuid* id, const Uuid* ref, int64_t i, double f, const Uuid* u) { new (o) Op{*id, *ref, (Integer)i, (Float)f, *u}; }
void h_make2(Op* o, const Uuid* id, const Uuid* ref, const Uuid* u, double f, int64_t i, double g, const Uuid* v) { new (o) Op{*id, *ref, *u, (Float)f, (Integer)i, (Float)g, *v}; }
void h_text(Op* o, const Uuid* id, const Uuid* ref, const String* a, int64_t i, const String* b) { new (o) Op{*id, *ref, *a, (Integer)i, *b}; }
void h_bare(Op* o, const Uuid* id, const Uuid* ref) { new (o) Op{*id, *ref}; }
const void* h_str_cp(const Atom* a) { return &a->value.cp; }
const void* h_str_size(const Atom* a) { return &a->value.cp_size; }
}
