#include "ron/ron.hpp"
#include "ron/hash.hpp"
#include "ron/opmeta.hpp"
using namespace ron;
struct Sink {
    void update(const uint8_t* data, size_t size);
    void final(uint8_t* to);
    size_t output_length();
};
extern "C" {
void h_op(const TextFrame::Cursor* c, Stream<Sink>* s, const SHA2* prev, const SHA2* ref) {
    WriteOpHashable<TextFrame::Cursor, Stream<Sink>>(*c, *s, *prev, *ref);
}
void h_opmerkle(SHA2* ret, TextFrame::Cursor* c, const SHA2* prev, const SHA2* ref) {
    *ret = SHA2::OpMerkleHash(*c, *prev, *ref);
}
void h_hash_op(TextFrame::Cursor* c, SHA2* hash, const SHA2* prev, const SHA2* ref) {
    hash_op<TextFrame>(*c, *hash, *prev, *ref);
}
SHA2 h_pair(const SHA2* a, const SHA2* b) { return SHA2::MerklePairHash(*a, *b); }
SHA2 h_uuid(const Uuid* u) { return SHA2{*u}; }
void h_zero(SHA2* h) { new (h) SHA2(); }
}
