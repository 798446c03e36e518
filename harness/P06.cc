#include "ron/status.hpp"
using namespace ron;
static void put(const Uuid& a, uint64_t* out) { out[0] = a.value.as_u64; out[1] = a.origin.as_u64; }
extern "C" {
const Status* h_list(int i) {
    static const Status* const N[] = {&Status::OK, &Status::ENDOFFRAME, &Status::ENDOFINPUT, &Status::NOT_IMPLEMENTED,
        &Status::NOT_FOUND, &Status::BAD_STATE, &Status::BADARGS, &Status::BADSYNTAX, &Status::DB_FAIL, &Status::IOFAIL,
        &Status::BADFRAME, &Status::BADID, &Status::BADREF, &Status::BADVALUE, &Status::NOTYPE, &Status::NOTOPEN,
        &Status::CHAINBREAK, &Status::HASHBREAK, &Status::TREEBREAK, &Status::CAUSEBREAK, &Status::TREEGAP,
        &Status::YARNGAP, &Status::REPEAT, &Status::REORDER, &Status::CONFLICT};
    return N[i];
}
bool h_bool(const Status* s) { return *s; }
bool h_eq(const Status* s, const Status* t) { return *s == *t; }
bool h_ne(const Status* s, const Status* t) { return *s != *t; }
void h_code(const Status* s, uint64_t* out) { put(s->code(), out); }
void h_uuid(const Status* s, uint64_t* out) { put(Uuid(*s), out); }
void h_comment(const Status* s, const String* c, uint64_t* out) { put(s->comment(*c).code(), out); }
void h_new(uint64_t e, uint64_t* out) { put(Status{e}.code(), out); }
void h_default(uint64_t* out) { put(Status{}.code(), out); }
void h_from(uint64_t v, uint64_t o, uint64_t* out) { put(Status(Uuid{Word{v}, Word{o}}).code(), out); }
bool h_is_error(uint64_t v, uint64_t o) { return Uuid{Word{v}, Word{o}}.is_error(); }
Status h_ifok(const Status* s) { IFOK(*s); return Status::REPEAT; }
}
