// SM3 from GB/T 32905, written for clarity.
#pragma once
#include "mc.h"
namespace refsm3 {
using mc::u8; using mc::u32; using mc::u64; using mc::Bytes;
inline u32 rl(u32 x, int n) { n %= 32; return n ? x << n | x >> (32 - n) : x; }
struct SM3 {
    u32 V[8] = {0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e};
    u64 len = 0; // bytes compressed so far
    void block(const u8* p)
    {
        u32 W[68], W1[64];
        for (int j = 0; j < 16; j++) W[j] = (u32)p[4 * j] << 24 | p[4 * j + 1] << 16 | p[4 * j + 2] << 8 | p[4 * j + 3];
        for (int j = 16; j < 68; j++) { u32 x = W[j - 16] ^ W[j - 9] ^ rl(W[j - 3], 15); x = x ^ rl(x, 15) ^ rl(x, 23); W[j] = x ^ rl(W[j - 13], 7) ^ W[j - 6]; }
        for (int j = 0; j < 64; j++) W1[j] = W[j] ^ W[j + 4];
        u32 A = V[0], B = V[1], C = V[2], D = V[3], E = V[4], F = V[5], G = V[6], H = V[7];
        for (int j = 0; j < 64; j++) {
            u32 T = j < 16 ? 0x79cc4519 : 0x7a879d8a;
            u32 SS1 = rl(rl(A, 12) + E + rl(T, j), 7), SS2 = SS1 ^ rl(A, 12);
            u32 FF = j < 16 ? A ^ B ^ C : (A & B) | (A & C) | (B & C), GG = j < 16 ? E ^ F ^ G : (E & F) | (~E & G);
            u32 TT1 = FF + D + SS2 + W1[j], TT2 = GG + H + SS1 + W[j];
            D = C; C = rl(B, 9); B = A; A = TT1; H = G; G = rl(F, 19); F = E; E = TT2 ^ rl(TT2, 9) ^ rl(TT2, 17);
        }
        V[0] ^= A; V[1] ^= B; V[2] ^= C; V[3] ^= D; V[4] ^= E; V[5] ^= F; V[6] ^= G; V[7] ^= H;
        len += 64;
    }
    void blocks(const u8* p, size_t n) { while (n--) { block(p); p += 64; } }
    // finish with the given tail of any length
    Bytes finish(const u8* p, size_t n) const
    {
        SM3 s = *this; while (n >= 64) { s.block(p); p += 64; n -= 64; }
        return s.pad(p, n, (s.len + n) * 8);
    }
    Bytes pad(const u8* p, size_t n, u64 bits) const
    {
        SM3 s = *this; Bytes t; if (n) t.assign(p, p + n); t.push_back(0x80); while (t.size() % 64 != 56) t.push_back(0);
        for (int i = 0; i < 8; i++) t.push_back((u8)(bits >> (56 - 8 * i)));
        for (size_t i = 0; i < t.size(); i += 64) s.block(t.data() + i);
        Bytes d; for (int i = 0; i < 8; i++) for (int k = 24; k >= 0; k -= 8) d.push_back((u8)(s.V[i] >> k));
        return d;
    }
};
inline Bytes sm3(const u8* p, size_t n) { return SM3().finish(p, n); }
inline Bytes sm3(const Bytes& b) { return sm3(b.data(), b.size()); }
inline bool self_test()
{
    Bytes abc = {'a', 'b', 'c'}, m; for (int i = 0; i < 16; i++) m.insert(m.end(), {'a', 'b', 'c', 'd'});
    return mc::hex(sm3(abc)) == "66c7f0f462eeedd9d1f2d46bdc10e4e24167c4875cf2f7a2297da02b8f4ba8e0" && mc::hex(sm3(m)) == "debe9ff92275b8a138604889c18e5a4d6fdb70e5387e5765293dcba39c0c5732";
}
}
