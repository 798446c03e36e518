#include "ron/uuid.hpp"
using namespace ron;
extern "C" {
uint64_t h_time(time_t s, long ns) { return Uuid::HybridTime(s, ns).as_u64; }
uint64_t h_now() { return Uuid::Now().as_u64; }
}
