#include "ron/uuid.hpp"
using namespace ron;
extern "C" {
#define W(n) uint64_t h_word##n(uint8_t flags, const char* p) { return Word{flags, Slice{p, (size_t)n}}.as_u64; }
W(0) W(1) W(2) W(3) W(4) W(5) W(6) W(7) W(8) W(9) W(10)
// pre-parsed UUID: variety char, value, version char, origin
void h_uuid(char variety, const char* v, char version, const char* o, uint64_t* out) {
    Uuid u{variety, Slice{v, (size_t)10}, version, Slice{o, (size_t)10}};
    out[0] = u.value.as_u64;
    out[1] = u.origin.as_u64;
}
void h_parse(char variety, const char* v, char version, const char* o, uint64_t* out) {
    Uuid u = Uuid::Parse(variety, Slice{v, (size_t)10}, version, Slice{o, (size_t)10});
    out[0] = u.value.as_u64;
    out[1] = u.origin.as_u64;
}
uint32_t h_version(uint64_t v, uint64_t o) { return Uuid{Word{v}, Word{o}}.version(); }
uint32_t h_variety(uint64_t v, uint64_t o) { return Uuid{Word{v}, Word{o}}.variety(); }
bool h_ambig(uint64_t v, uint64_t o) { return Uuid{Word{v}, Word{o}}.is_ambiguous(); }
bool h_lt(uint64_t v, uint64_t o, uint64_t w, uint64_t p) { return Uuid{Word{v}, Word{o}} < Uuid{Word{w}, Word{p}}; }
bool h_gt(uint64_t v, uint64_t o, uint64_t w, uint64_t p) { return Uuid{Word{v}, Word{o}} > Uuid{Word{w}, Word{p}}; }
bool h_le(uint64_t v, uint64_t o, uint64_t w, uint64_t p) { return Uuid{Word{v}, Word{o}} <= Uuid{Word{w}, Word{p}}; }
bool h_ge(uint64_t v, uint64_t o, uint64_t w, uint64_t p) { return Uuid{Word{v}, Word{o}} >= Uuid{Word{w}, Word{p}}; }
bool h_eq(uint64_t v, uint64_t o, uint64_t w, uint64_t p) { return Uuid{Word{v}, Word{o}} == Uuid{Word{w}, Word{p}}; }
bool h_ne(uint64_t v, uint64_t o, uint64_t w, uint64_t p) { return Uuid{Word{v}, Word{o}} != Uuid{Word{w}, Word{p}}; }
bool h_wlt(uint64_t a, uint64_t b) { return Word{a} < Word{b}; }
bool h_wgt(uint64_t a, uint64_t b) { return Word{a} > Word{b}; }
bool h_wle(uint64_t a, uint64_t b) { return Word{a} <= Word{b}; }
bool h_wge(uint64_t a, uint64_t b) { return Word{a} >= Word{b}; }
bool h_weq(uint64_t a, uint64_t b) { return Word{a} == Word{b}; }
bool h_wne(uint64_t a, uint64_t b) { return Word{a} != Word{b}; }
}
extern "C" void h_wstr(String* ret, const Word* w) { new (ret) String(w->str()); }
