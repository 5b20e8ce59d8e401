// A small iterated hash with any block and digest size, built on the library's Hash
// base class (which is the code under test), and the same function written directly.
#pragma once
#include "mc.h"
#include <gmlib/hash_lib/hash.h>
namespace toy {
using mc::u8; using mc::u64; using mc::Bytes;
template <size_t DS> struct ToyCore {
    u8 s[DS]; u64 n;
    void init() { for (size_t i = 0; i < DS; i++) s[i] = (u8)(i * 7 + 1); n = 0; }
    void feed(const u8* p, size_t k) { for (size_t i = 0; i < k; i++) { n++; u8 c = (u8)(p[i] + n * 3 + (n >> 8)); for (size_t j = 0; j < DS; j++) { s[j] = (u8)((s[j] ^ c) * 37 + s[(j + 1) % DS] + j); c = (u8)(c * 5 + s[j]); } } }
    void out(u8* d) { u64 m = n; u8 t[8]; for (int i = 0; i < 8; i++) t[i] = (u8)(m >> (8 * i)); feed(t, 8); memcpy(d, s, DS); }
};
template <size_t BS, size_t DS>
class ToyHash : public hash_lib::Hash<BS> {
public:
    static constexpr std::size_t BLOCK_SIZE = BS, DIGEST_SIZE = DS;
    ToyCore<DS> c; Bytes* rec = nullptr; const char* err = nullptr;
    ToyHash() { c.init(); }
    void reset() { this->hash_lib::Hash<BS>::reset(); c.init(); }
    const char* name() const noexcept override { return "toy"; }
private:
    void update_blocks(const u8* in, std::size_t n) override { c.feed(in, n * BS); if (rec) rec->insert(rec->end(), in, in + n * BS); }
    void final_block(u8* d, const u8* in, std::size_t n) override { if (n >= BS) err = "final call got a whole block"; c.feed(in, n); if (rec) rec->insert(rec->end(), in, in + n); c.out(d); }
};
template <size_t DS> Bytes toy_hash(const Bytes& m) { ToyCore<DS> c; c.init(); c.feed(m.data(), m.size()); Bytes d(DS); c.out(d.data()); return d; }
}
