#include "ron/form.hpp"
#include "db/const.hpp"
using namespace ron;
static void put(const Uuid& a, uint64_t* out) { out[0] = a.value.as_u64; out[1] = a.origin.as_u64; }
extern "C" {
void h_form2uuid(uint8_t f, uint64_t* out) { put(form2uuid(FORM(f)), out); }
uint8_t h_uuid2form(uint64_t v, uint64_t o) { return uuid2form(Uuid{Word{v}, Word{o}}); }
void h_map2uuid(uint8_t f, uint64_t* out) { put(map2uuid(MAP(f)), out); }
uint8_t h_uuid2map(uint64_t v, uint64_t o) { return uuid2map(Uuid{Word{v}, Word{o}}); }
int h_enum(int i) {
    switch (i) {
        case 0: return ZERO_RAW_FORM; case 1: return YARN_RAW_FORM; case 2: return LOG_RAW_FORM;
        case 3: return TAIL_RAW_FORM; case 4: return PATCH_RAW_FORM; case 5: return SPAN_RAW_FORM;
        case 6: return CHAIN_RAW_FORM; case 7: return GRAPH_RAW_FORM; case 8: return META_META_FORM;
        case 9: return PREV_META_FORM; case 10: return OBJ_META_FORM; case 11: return SHA3_META_FORM;
        case 12: return VV_META_FORM; case 13: return LWW_RDT_FORM; case 14: return RGA_RDT_FORM;
        case 15: return MX_RDT_FORM; case 16: return JSON_MAP_FORM; case 17: return CSV_MAP_FORM;
        case 18: return TXT_MAP_FORM; case 19: return MAX_RDT_FORM; case 20: return RESERVED_ANY_FORM;
        case 21: return ERROR_NO_FORM;
    }
    return -1;
}
const Uuid* h_names(int i) {
    static const Uuid* const N[] = {&ZERO_FORM_UUID, &YARN_FORM_UUID, &LOG_FORM_UUID, &TAIL_FORM_UUID, &PATCH_FORM_UUID,
        &SPAN_FORM_UUID, &CHAIN_FORM_UUID, &GRAPH_FORM_UUID, &META_FORM_UUID, &PREV_FORM_UUID, &OBJ_FORM_UUID,
        &SHA3_FORM_UUID, &VV_FORM_UUID, &LWW_FORM_UUID, &RGA_FORM_UUID, &MX_FORM_UUID, &JSON_FORM_UUID, &CSV_FORM_UUID,
        &TXT_FORM_UUID, &MAX_FORM_UUID};
    return N[i];
}
}
