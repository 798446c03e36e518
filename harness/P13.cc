#include "ron/ron.hpp"
#include "rdt/rdt.hpp"
using namespace ron;
using F = TextFrame;
extern "C" {
void h_merge(F::Builder* out, uint8_t form, F::Cursors* in, Status* ret) {
    new (ret) Status(MergeCursorsInto<F>(*out, FORM(form), *in));
}
void h_form(uint8_t* ret, const F::Cursors* in, Status* st) {
    FORM f;
    new (st) Status(GetForm<F>(f, *in));
    *ret = f;
}
void h_cursors(F* ret, uint8_t form, F::Cursors* in, Status* st) {
    new (st) Status(MergeCursors<F>(*ret, FORM(form), *in));
}
void h_cursors2(F* ret, F::Cursors* in, Status* st) {
    new (st) Status(MergeCursors<F>(*ret, *in));
}
void h_frames(F* ret, const std::vector<F>* in, Status* st) { new (st) Status(MergeFrames<F>(*ret, *in)); }
void h_strings(String* ret, uint8_t form, Strings* in, Status* st) {
    new (st) Status(MergeStrings<F>(*ret, static_cast<FORM>(form), std::move(*in)));
}
size_t h_cursor_size() { return sizeof(F::Cursor); }
}
