#include "ron/uuid.hpp"
#include "ron/const.hpp"
using namespace ron;
extern "C" {
// the constant tables, reachable so that they are dumped
const void* h_tabs(int i) {
    switch (i) {
        case 0: return ABC;
        case 1: return ABC64;
        case 2: return ABC16;
        case 3: return IS_BASE;
        case 4: return BASE_PUNCT;
        case 5: return HEX_PUNCT;
        case 6: return SPEC_PUNCT;
        case 7: return UUID_PUNCT;
        case 8: return ATOM_PUNCT;
        case 9: return TERM_PUNCT;
        case 10: return FRAME_PUNCT;
    }
    return 0;
}
uint8_t h_term(Char c) { return chr2term(c); }
uint64_t h_enum(int i) {
    switch (i) {
        case 0: return TYPE; case 1: return OBJECT; case 2: return EVENT; case 3: return REF;
        case 4: return NAME; case 5: return HASH; case 6: return TIME; case 7: return DERIVED;
        case 8: return ron::UUID; case 9: return INT; case 10: return STRING; case 11: return FLOAT;
        case 12: return RAW; case 13: return REDUCED; case 14: return HEADER; case 15: return QUERY;
        case 16: return UUID_FLAGS; case 17: return INT_FLAGS; case 18: return STRING_FLAGS; case 19: return FLOAT_FLAGS;
        case 20: return OP_ID_IDX; case 21: return OP_REF_IDX;
    }
    return 0;
}
}
