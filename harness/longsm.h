// Long messages and identities for the signature and encryption checks.
#pragma once
#include "sm2ref.h"
#include "longhash.h"
template <size_t DS, size_t BS> struct sm2r::HashOf<lng::SparseHash<DS, BS>> { static mc::Bytes eval(const mc::Bytes& b) { return lng::eval(DS, {b}); } };
namespace lng {
using namespace sm2r;
// every power of two and its neighbourhood
struct Len { int k; long d; size_t n() const { return ((size_t)1 << k) + d; } };
static const long DELTA[] = {0, 1, -1, 31, -33, 63, -65, 7};
inline long nlens(int lo = 8) { return (33 - lo) * 8; }
inline Len len(long it, int lo = 8) { return {lo + (int)(it / 8), DELTA[it % 8]}; }
}
