#include "ron/ron.hpp"
#include "ron/hash.hpp"
#include "ron/opmeta.hpp"
using namespace ron;
using C = TextFrame::Cursor;
extern "C" {
void h_next(OpMeta* m, const C* op, const OpMeta* refd, Status* ret) { new (ret) Status(m->Next<C>(*op, *refd)); }
void h_root(OpMeta* m, const C* op, const OpMeta* prev) { new (m) OpMeta(*op, *prev); }
bool h_is_next(const OpMeta* m, const C* op) { return m->is_next<C>(*op); }
bool h_is_check(const OpMeta* m, const C* op) { return m->is_check<C>(*op); }
bool h_is_head(const OpMeta* m) { return m->is_head(); }
void h_chain_id(const OpMeta* m, Uuid* ret) { *ret = m->chain_id(); }
const void* o_id(const OpMeta* m) { return &m->id; }
const void* o_rdt(const OpMeta* m) { return &m->rdt; }
const void* o_object(const OpMeta* m) { return &m->object; }
const void* o_hash(const OpMeta* m) { return &m->hash; }
const void* o_prev(const OpMeta* m) { return &m->prev; }
const void* o_chain(const OpMeta* m) { return &m->chain; }
const void* o_bits(const SHA2* m) { return &m->bits_; }
const void* o_known(const SHA2* m) { return &m->known_bits_; }
}
