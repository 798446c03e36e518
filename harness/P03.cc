#include "db/key.hpp"
#include <cstring>
using namespace ron;
extern "C" {
// the key of a (value, origin, form) triple
void h_pack(uint64_t v, uint64_t o, uint8_t f, uint64_t* out) {
    Key k{Uuid{Word{v}, Word{o}}, FORM(f)};
    out[0] = k.bits.first;
    out[1] = k.bits.second;
}
void h_be(uint64_t a, uint64_t b, uint8_t* out) {
    uint64pair p = Key{uint64pair{a, b}}.be();
    memcpy(out, &p, 16);
}
void h_unbe(const uint8_t* in, uint64_t* out) {
    Key k = Key::be(Slice{(const char*)in, (fsize_t)16});
    out[0] = k.bits.first;
    out[1] = k.bits.second;
}
void h_id(uint64_t a, uint64_t b, uint8_t fl, uint64_t* out) {
    Uuid u = Key{uint64pair{a, b}}.id((enum UUID)(fl & 3));
    out[0] = u.value.as_u64;
    out[1] = u.origin.as_u64;
}
void h_id_default(uint64_t a, uint64_t b, uint64_t* out) {
    Uuid u = Key{uint64pair{a, b}}.id();
    out[0] = u.value.as_u64;
    out[1] = u.origin.as_u64;
}
uint8_t h_form(uint64_t a, uint64_t b) { return Key{uint64pair{a, b}}.form(); }
bool h_lt(uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
    return Key{uint64pair{a, b}} < Key{uint64pair{c, d}};
}
bool h_gt(uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
    return Key{uint64pair{a, b}} > Key{uint64pair{c, d}};
}
bool h_eq(uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
    return Key{uint64pair{a, b}} == Key{uint64pair{c, d}};
}
bool h_ne(uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
    return Key{uint64pair{a, b}} != Key{uint64pair{c, d}};
}
}
