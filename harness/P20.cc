#include "ron/ron.hpp"
#include "rdt/rdt.hpp"
using namespace ron;
using F = TextFrame;
extern "C" {
void h_ops(const F::Cursor* a, const F::Cursor* b, Status* ret) { new (ret) Status(CompareOps<F::Cursor>(*a, *b)); }
void h_frames(const F* a, const F* b, Status* ret) { new (ret) Status(CompareFrames<F>(*a, *b)); }
void h_append(F::Builder* to, const F* from) { AppendFrame<F>(*to, *from); }
void h_rewrite(std::vector<F>* to, F::Cursors* from, Status* ret) { new (ret) Status(Reserialize<F>(*to, *from)); }
bool h_has(const F::Cursor* c, ATOM type, fsize_t at) { return HasValue(*c, type, at); }
}
extern "C" {
void h_read(String* to, const F::Cursor* c, const Atom* a, Result* ret) { *ret = ReadString<F::Cursor>(*to, *c, *a); }
void h_read16(std::u16string* to, const F::Cursor* c, const Atom* a, Result* ret) { *ret = ReadString16<F::Cursor>(*to, *c, *a); }
void h_nth(String* to, const F::Cursor* c, fsize_t at, Result* ret) { *ret = ReadString<F::Cursor>(*to, *c, at); }
void h_get(String* to, const F::Cursor* c, fsize_t at) { new (to) String(GetString<F::Cursor>(*c, at)); }
Codepoint h_char(const F::Cursor* c, fsize_t at) { return GetChar<F::Cursor>(*c, at); }
}
