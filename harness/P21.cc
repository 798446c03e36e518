#include "ron/ron.hpp"
using namespace ron;
#define STACK(T, N)                                                              \
    extern "C" {                                                                 \
    void sink_##N(const T*);                                                     \
    uint64_t h_each_##N() { return sizeof(inc_stack<T>::span_t); }               \
    uint64_t h_where_##N() { return __builtin_offsetof(inc_stack<T>::span_t, size); } \
    uint64_t h_width_##N() { return sizeof(inc_stack<T>::span_t::size); }        \
    void h_new_##N(inc_stack<T>* s) { new (s) inc_stack<T>(); }                  \
    void h_span_##N(inc_stack<T>::span_t* s, const T* v) {                       \
        new (s) inc_stack<T>::span_t(*v);                                        \
    }                                                                            \
    void h_push_##N(inc_stack<T>* s, const T* v) { s->push_back(*v); }           \
    void h_pop_##N(inc_stack<T>* s) { s->pop_back(); }                           \
    void h_back_##N(const inc_stack<T>* s, T* to) { *to = s->back(); }           \
    void h_front_##N(const inc_stack<T>* s, T* to) { *to = s->front(); }         \
    uint32_t h_size_##N(const inc_stack<T>* s) { return s->size(); }             \
    bool h_empty_##N(const inc_stack<T>* s) { return s->empty(); }               \
    void h_walk_##N(const inc_stack<T>* s) {                                     \
        for (auto i = s->begin(); i != s->end(); ++i) {                          \
            T v = *i;                                                            \
            sink_##N(&v);                                                        \
        }                                                                        \
    }                                                                            \
    void h_tail_##N(const inc_stack<T>* s, uint32_t a, uint32_t n) {             \
        auto i = s->begin();                                                     \
        i += a;                                                                  \
        i += n;                                                                  \
        for (int k = 0; k < 3 && !(i == s->end()); ++k, ++i) {                   \
            T v = *i;                                                            \
            sink_##N(&v);                                                        \
        }                                                                        \
    }                                                                            \
    uint32_t h_skip_##N(const inc_stack<T>* s, uint32_t a, uint32_t n) {         \
        auto i = s->begin();                                                     \
        i += a;                                                                  \
        uint32_t ret = i.skip_span(n);                                           \
        for (int k = 0; k < 3 && !(i == s->end()); ++k, ++i) {                   \
            T v = *i;                                                            \
            sink_##N(&v);                                                        \
        }                                                                        \
        return ret;                                                              \
    }                                                                            \
    bool h_same_##N(const inc_stack<T>* s, uint32_t a, uint32_t b) {             \
        auto i = s->begin(), j = s->begin();                                     \
        i += a;                                                                  \
        j += b;                                                                  \
        return i == j;                                                           \
    }                                                                            \
    bool h_other_##N(const inc_stack<T>* s, uint32_t a, uint32_t b) {            \
        auto i = s->begin(), j = s->begin();                                     \
        i += a;                                                                  \
        j += b;                                                                  \
        return i != j;                                                           \
    }                                                                            \
    uint32_t h_runs_##N(const inc_stack<T>* s) { return s->span_size(); }        \
    uint32_t h_fspan_##N(const inc_stack<T>* s, T* to) {                         \
        *to = s->front_span().value;                                             \
        return s->front_span().size;                                             \
    }                                                                            \
    uint32_t h_bspan_##N(const inc_stack<T>* s, T* to) {                         \
        *to = s->back_span().value;                                              \
        return s->back_span().size;                                              \
    }                                                                            \
    }
STACK(Uuid, uuid)
STACK(fsize_t, int)
