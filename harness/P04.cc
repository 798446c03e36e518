#include "ron/uuid.hpp"
#include <cstring>
using namespace ron;
static void put(const Atom& a, uint64_t* out) { out[0] = a.value.as_u64; out[1] = a.origin.as_u64; }
extern "C" {
void h_int(int64_t i, uint32_t b, uint32_t e, uint64_t* out) { put(Atom::Integer(i, Range{b & FSIZE_BITS, e & FSIZE_BITS}), out); }
void h_float(double i, uint32_t b, uint32_t e, uint64_t* out) { put(Atom::Float(i, Range{b & FSIZE_BITS, e & FSIZE_BITS}), out); }
void h_string(uint32_t cp, uint32_t b, uint32_t e, uint32_t sz, uint64_t* out) { put(Atom::String(cp, Range{b & FSIZE_BITS, e & FSIZE_BITS}, sz), out); }
void h_typed(uint8_t t, uint32_t b, uint32_t e, uint64_t* out) { put(Atom{ATOM(t & 3), Range{b & FSIZE_BITS, e & FSIZE_BITS}}, out); }
uint8_t h_type(uint64_t v, uint64_t o) { return Atom{Word{v}, Word{o}}.type(); }
uint64_t h_safe_origin(uint64_t v, uint64_t o) { return Atom{Word{v}, Word{o}}.safe_origin().as_u64; }
uint32_t h_begin(uint64_t v, uint64_t o) { return Atom{Word{v}, Word{o}}.origin.range().begin(); }
uint32_t h_end(uint64_t v, uint64_t o) { return Atom{Word{v}, Word{o}}.origin.range().end(); }
uint32_t h_rsb(uint64_t v, uint64_t o) { return Word{o}.as_range.safe_begin(); }
uint32_t h_rse(uint64_t v, uint64_t o) { return Word{o}.as_range.safe_end(); }
uint64_t h_integer(uint64_t v, uint64_t o) { return (uint64_t)Atom{Word{v}, Word{o}}.value.as_integer; }
void h_float_back(uint64_t v, uint64_t o, double* d) { *d = Atom{Word{v}, Word{o}}.value.as_float; }
uint32_t h_cp(uint64_t v, uint64_t o) { return Atom{Word{v}, Word{o}}.value.cp; }
uint32_t h_cpsz(uint64_t v, uint64_t o) { return Atom{Word{v}, Word{o}}.value.cp_size; }
void h_atom(uint64_t v, uint64_t o, uint64_t* out) { put(Atom{v, o}, out); }
void h_atomw(uint64_t v, uint64_t o, uint64_t* out) { put(Atom{Word{v}, Word{o}}, out); }
void h_uuid(uint64_t v, uint64_t o, uint64_t* out) { put(Uuid{Word{v}, Word{o}}, out); }
void h_a2u(uint64_t v, uint64_t o, uint64_t* out) { Atom a{Word{v}, Word{o}}; put(A2U(a), out); }
void h_time(uint64_t v, uint64_t o, uint64_t* out) { put(Uuid::Time(Word{v}, Word{o}), out); }
void h_derive(uint64_t v, uint64_t o, uint64_t* out) { put(Uuid::Derived(Word{v}, Word{o}), out); }
void h_derived(uint64_t v, uint64_t o, uint64_t* out) { put((Uuid{Word{v}, Word{o}}.derived()), out); }
void h_event(uint64_t v, uint64_t o, uint64_t* out) { put((Uuid{Word{v}, Word{o}}.event()), out); }
uint64_t h_payload(uint64_t v) { return Word{v}.payload(); }
uint8_t h_flags(uint64_t v) { return Word{v}.flags(); }
uint64_t h_be(uint64_t v) { return Word{v}.be(); }
bool h_aeq(uint64_t v, uint64_t o, uint64_t w, uint64_t p) { return Atom{Word{v}, Word{o}} == Atom{Word{w}, Word{p}}; }
bool h_ane(uint64_t v, uint64_t o, uint64_t w, uint64_t p) { return Atom{Word{v}, Word{o}} != Atom{Word{w}, Word{p}}; }
void h_nil(uint64_t* out) { put(Uuid{}, out); }
// byte ranges
static void rng(Range r, uint32_t* out) { out[0] = r.begin(); out[1] = r.end(); }
void h_r_froto(uint32_t a, uint32_t b, uint32_t x, uint32_t* out) { rng(Range::FroTo(a, b), out); }
void h_r_atfor(uint32_t a, uint32_t b, uint32_t x, uint32_t* out) { rng(Range::AtFor(a, b), out); }
void h_r_consume(uint32_t a, uint32_t b, uint32_t x, uint32_t* out) { Range r{a, b}; r.Consume(x); rng(r, out); }
void h_r_shorten(uint32_t a, uint32_t b, uint32_t x, uint32_t* out) { Range r{a, b}; r.Shorten(x); rng(r, out); }
void h_r_endat(uint32_t a, uint32_t b, uint32_t x, uint32_t* out) { Range r{a, b}; r.EndAt(x); rng(r, out); }
void h_r_resize(uint32_t a, uint32_t b, uint32_t x, uint32_t* out) { Range r{a, b}; r.Resize(x); rng(r, out); }
void h_r_inc(uint32_t a, uint32_t b, uint32_t x, uint32_t* out) { Range r{a, b}; ++r; rng(r, out); }
void h_r_size(uint32_t a, uint32_t b, uint32_t x, uint32_t* out) { Range r{a, b}; out[0] = r.size(); out[1] = r.length(); }
void h_r_word(uint32_t a, uint32_t b, uint32_t x, uint32_t* out) { Word w{Range{a, b}}; rng(w.as_range, out); }
bool h_r_empty(uint32_t a, uint32_t b) { return Range{a, b}.empty(); }
bool h_r_valid(uint32_t a, uint32_t b) { return Range{a, b}.valid(); }
bool h_r_eq(uint32_t a, uint32_t b, uint32_t c, uint32_t d) { return Range{a, b} == Range{c, d}; }
bool h_r_ne(uint32_t a, uint32_t b, uint32_t c, uint32_t d) { return Range{a, b} != Range{c, d}; }
// slices: (base, a, b) -> begin pointer, end pointer, size
static void slc(const Slice& s, const unsigned char** pp, uint32_t* n) { pp[0] = s.begin(); pp[1] = s.end(); pp[2] = s.buffer(); n[0] = s.size(); }
void h_s_range(const unsigned char* p, uint32_t a, uint32_t b, uint32_t x, uint32_t y, const unsigned char** pp, uint32_t* n) { slc(Slice{p, Range{a, b}}, pp, n); }
void h_s_reset(const unsigned char* p, uint32_t a, uint32_t b, uint32_t x, uint32_t y, const unsigned char** pp, uint32_t* n) { slc(Slice{p, Range{a, b}}.reset(), pp, n); }
void h_s_consumed(const unsigned char* p, uint32_t a, uint32_t b, uint32_t x, uint32_t y, const unsigned char** pp, uint32_t* n) { slc(Slice{p, Range{a, b}}.consumed(), pp, n); }
void h_s_slice(const unsigned char* p, uint32_t a, uint32_t b, uint32_t x, uint32_t y, const unsigned char** pp, uint32_t* n) { slc(Slice{p, Range{a, b}}.slice(Range{x, y}), pp, n); }
void h_s_cutoff(const unsigned char* p, uint32_t a, uint32_t b, uint32_t x, uint32_t y, const unsigned char** pp, uint32_t* n) { slc(Slice{p, Range{a, b}}.CutOff(Slice{p, Range{x, y}}), pp, n); }
void h_s_inc(const unsigned char* p, uint32_t a, uint32_t b, uint32_t x, uint32_t y, const unsigned char** pp, uint32_t* n) { Slice s{p, Range{a, b}}; ++s; slc(s, pp, n); }
void h_s_consume(const unsigned char* p, uint32_t a, uint32_t b, uint32_t x, uint32_t y, const unsigned char** pp, uint32_t* n) { Slice s{p, Range{a, b}}; s.Consume(x); slc(s, pp, n); }
void h_s_endat(const unsigned char* p, uint32_t a, uint32_t b, uint32_t x, uint32_t y, const unsigned char** pp, uint32_t* n) { Slice s{p, Range{a, b}}; s.EndAt(x); slc(s, pp, n); }
void h_s_resize(const unsigned char* p, uint32_t a, uint32_t b, uint32_t x, uint32_t y, const unsigned char** pp, uint32_t* n) { Slice s{p, Range{a, b}}; s.Resize(x); slc(s, pp, n); }
unsigned char h_s_at(const unsigned char* p, uint32_t a, uint32_t b, uint32_t x) { return Slice{p, Range{a, b}}.at(x); }
unsigned char h_s_idx(const unsigned char* p, uint32_t a, uint32_t b, uint32_t x) { return (Slice{p, Range{a, b}})[x]; }
unsigned char h_s_deref(const unsigned char* p, uint32_t a, uint32_t b, uint32_t x) { return *Slice{p, Range{a, b}}; }
void h_s_rangeof(const unsigned char* p, uint32_t a, uint32_t b, uint32_t x, uint32_t y, uint32_t* out) { rng(Slice{p, Range{a, b}}.range_of(Slice{p, Range{x, y}}), out); }
bool h_s_empty(const unsigned char* p, uint32_t a, uint32_t b) { return Slice{p, Range{a, b}}.empty(); }
void h_s_str(const unsigned char* p, uint32_t a, uint32_t b, String* out) { new (out) String{Slice{p, Range{a, b}}.str()}; }
}
