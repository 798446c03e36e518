#include "ron/ron.hpp"
#include "rdt/rdt.hpp"
using namespace ron;
using F = TextFrame;
extern "C" {
void h_scan(Booleans* out, const F* in, Status* ret) { new (ret) Status(ScanRGA<F>(*out, *in)); }
}
#define STACK(T, N)                                                              \
    extern "C" {                                                                 \
    uint64_t h_each_##N() { return sizeof(inc_stack<T>::span_t); }               \
    uint64_t h_where_##N() { return __builtin_offsetof(inc_stack<T>::span_t, size); } \
    uint64_t h_width_##N() { return sizeof(inc_stack<T>::span_t::size); }        \
    void h_new_##N(inc_stack<T>* s) { new (s) inc_stack<T>(); }                  \
    void h_span_##N(inc_stack<T>::span_t* s, const T* v) {                       \
        new (s) inc_stack<T>::span_t(*v);                                        \
    }                                                                            \
    void h_push_##N(inc_stack<T>* s, const T* v) { s->push_back(*v); }           \
    void h_pop_##N(inc_stack<T>* s) { s->pop_back(); }                           \
    void h_back_##N(const inc_stack<T>* s, T* to) { *to = s->back(); }           \
    void h_front_##N(const inc_stack<T>* s, T* to) { *to = s->front(); }         \
    uint32_t h_size_##N(const inc_stack<T>* s) { return s->size(); }             \
    bool h_empty_##N(const inc_stack<T>* s) { return s->empty(); }               \
    }
STACK(Uuid, uuid)
STACK(fsize_t, int)
