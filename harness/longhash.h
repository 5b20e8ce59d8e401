// Inputs of any length: a hash on the library's base class that looks at the total length and at
// chosen octets (the first 512, the last 64, every position divisible by 4093), whatever the
// chunks; the same function fed directly is the reference.
#pragma once
#include "mc.h"
#include <gmlib/hash_lib/hash.h>
namespace lng {
using mc::u8; using mc::u64; using mc::Bytes;
struct Core {
    u64 n, acc; u8 last[64];
    void init() { n = 0; acc = 0x243f6a8885a308d3ull; memset(last, 0, 64); }
    void mix(u64 pos, u8 b) { acc = (acc ^ (pos * 0x9e3779b97f4a7c15ull + b + 1)) * 0xff51afd7ed558ccdull; acc ^= acc >> 32; }
    void feed(const u8* p, size_t k)
    {
        size_t i = 0; for (; i < k && n + i < 512; i++) mix(n + i, p[i]);
        if (i < k) { u64 q = (n + i + 4092) / 4093 * 4093; for (; q < n + k; q += 4093) mix(q, p[q - n]); }
        if (k >= 64) memcpy(last, p + k - 64, 64); else if (k) { memmove(last, last + k, 64 - k); memcpy(last + 64 - k, p, k); }
        n += k;
    }
    void out(u8* d, size_t ds) { u64 h = mc::hashv(acc, n, mc::hash(last, 64)); for (size_t i = 0; i < ds; i += 8) { u64 v = h + (i / 8 + 1) * 0x9e3779b97f4a7c15ull; v ^= v >> 29; v *= 0xbf58476d1ce4e5b9ull; v ^= v >> 32; memcpy(d + i, &v, ds - i < 8 ? ds - i : 8); } if (d[0] == 0) d[0] = 1; }
};
template <size_t DS, size_t BS = 64>
class SparseHash : public hash_lib::Hash<BS> {
public:
    static constexpr std::size_t BLOCK_SIZE = BS, DIGEST_SIZE = DS;
    Core c; SparseHash() { c.init(); }
    void reset() { this->hash_lib::Hash<BS>::reset(); c.init(); }
    const char* name() const noexcept override { return "sparse"; }
private:
    void update_blocks(const u8* in, std::size_t n) override { c.feed(in, n * BS); }
    void final_block(u8* d, const u8* in, std::size_t n) override { c.feed(in, n); c.out(d, DS); }
};
struct Piece { const u8* p; size_t n; Piece(const u8* q, size_t k) : p(q), n(k) {} Piece(const Bytes& b) : p(b.data()), n(b.size()) {} };
inline Bytes eval(size_t ds, const std::vector<Piece>& v) { Core c; c.init(); for (auto& x : v) c.feed(x.p, x.n); Bytes d(ds); c.out(d.data(), ds); return d; }
// read-only octets of any length up to 4 GiB + 1 MiB, periodic in 1 MiB
inline const u8* data() { static mc::Repeat* r = new mc::Repeat(1 << 20, 4097 + 15, 4711); return r->p; }
// lengths around every power of two
inline std::vector<size_t> lens(int lo, int hi, int around) { std::vector<size_t> v; for (int k = lo; k <= hi; k++) for (int d = -around; d <= around; d++) v.push_back(((size_t)1 << k) + (size_t)(long)d); return v; }
}
