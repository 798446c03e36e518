#include "ron/ron.hpp"
#include "rdt/rdt.hpp"
using namespace ron;
using F = TextFrame;
extern "C" {
void h_split(F::Cursors* out, const F* in, const Uuid* cutoff, Status* ret) {
    new (ret) Status(SplitLogIntoChains<F>(*out, *in, *cutoff));
}
void h_into(F::Builder* out, const F* in, const Uuid* cutoff, Status* ret) {
    new (ret) Status(ObjectLogIntoState<F>(*out, *in, *cutoff));
}
void h_state(F* out, const F* in, const Uuid* cutoff, Status* ret) {
    new (ret) Status(ObjectLogToState<F>(*out, *in, *cutoff));
}
void h_state_all(F* out, const F* in, const Uuid*, Status* ret) {
    new (ret) Status(ObjectLogToState<F>(*out, *in));
}
}
