// GCM from SP 800-38D, bit by bit.
#pragma once
#include "toy.h"
namespace refgcm {
using mc::u8; using mc::u32; using mc::u64; using mc::Bytes;
typedef unsigned __int128 u128;
struct Blk { u64 hi = 0, lo = 0; }; // hi bit 63 = coefficient of x^0
inline Blk load(const u8* p) { Blk b; for (int i = 0; i < 8; i++) b.hi = b.hi << 8 | p[i]; for (int i = 8; i < 16; i++) b.lo = b.lo << 8 | p[i]; return b; }
inline void store(u8* p, const Blk& b) { for (int i = 0; i < 8; i++) { p[i] = (u8)(b.hi >> (56 - 8 * i)); p[8 + i] = (u8)(b.lo >> (56 - 8 * i)); } }
inline Blk mul(const Blk& x, const Blk& y)
{
    Blk z, v = y;
    for (int i = 0; i < 128; i++) {
        u64 bit = i < 64 ? x.hi >> (63 - i) & 1 : x.lo >> (127 - i) & 1;
        if (bit) { z.hi ^= v.hi; z.lo ^= v.lo; }
        bool c = v.lo & 1; v.lo = v.lo >> 1 | v.hi << 63; v.hi >>= 1; if (c) v.hi ^= 0xE100000000000000ull;
    }
    return z;
}
struct GH {
    Blk h, y; 
    explicit GH(const u8* H) : h(load(H)) {}
    void block(const u8* p) { Blk b = load(p); y.hi ^= b.hi; y.lo ^= b.lo; y = mul(y, h); }
    void padded(const u8* p, size_t n) { for (; n >= 16; n -= 16, p += 16) block(p); if (n) { u8 t[16] = {0}; memcpy(t, p, n); block(t); } }
    void lens(u64 a, u64 c) { u8 t[16]; for (int i = 0; i < 8; i++) { t[i] = (u8)(a >> (56 - 8 * i)); t[8 + i] = (u8)(c >> (56 - 8 * i)); } block(t); }
};
inline void inc32(u8* c) { for (int i = 15; i >= 12; i--) if (++c[i]) break; }
inline Bytes j0_of(const toy::Perm& p, const Bytes& iv)
{
    Bytes H(16, 0), j0; p.E(H.data());
    if (iv.size() == 12) { j0 = iv; j0.resize(16, 0); j0[15] = 1; }
    else { GH g(H.data()); g.padded(iv.data(), iv.size()); g.lens(0, (u64)iv.size() * 8); j0.resize(16); store(j0.data(), g.y); }
    return j0;
}
// GCTR over one message; the tag is computed over the ciphertext
inline Bytes gctr(const toy::Perm& p, const Bytes& j0, const Bytes& in)
{
    Bytes c = j0, o(in.size());
    for (size_t i = 0; i < in.size(); i += 16) { inc32(c.data()); Bytes s = c; p.E(s.data()); for (size_t k = i; k < in.size() && k < i + 16; k++) o[k] = in[k] ^ s[k - i]; }
    return o;
}
inline Bytes tag(const toy::Perm& p, const Bytes& j0, const Bytes& aad, const u8* ct, size_t n)
{
    Bytes H(16, 0), t(16), s = j0; p.E(H.data()); GH g(H.data());
    g.padded(aad.data(), aad.size()); g.padded(ct, n); g.lens((u64)aad.size() * 8, (u64)n * 8);
    store(t.data(), g.y); p.E(s.data()); for (int i = 0; i < 16; i++) t[i] ^= s[i];
    return t;
}
// SP 800-38D / original GCM submission test case 4 (checks the reference itself)
} // namespace refgcm
