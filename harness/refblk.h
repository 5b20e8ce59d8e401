// AES (FIPS 197) and SM4 (GB/T 32907) written from the standards: S-boxes from field
// inversion, no tables of the library. Optional coverage callback: (round, byte lane, S-box input).
#pragma once
#include "mc.h"
namespace refblk {
using mc::u8; using mc::u32; using mc::u64; using mc::Bytes;
struct Cov { std::vector<bool> hit; size_t left = 0; int lanes = 16;
    void init(int rounds, int lanes_) { lanes = lanes_; hit.assign((size_t)rounds * lanes * 256, false); left = hit.size(); }
    void operator()(int r, int lane, u8 v) { size_t i = ((size_t)r * lanes + lane) * 256 + v; if (i < hit.size() && !hit[i]) { hit[i] = true; left--; } } };
inline u8 gmul(u8 a, u8 b, int poly) { int r = 0, x = a; for (int i = 0; i < 8; i++) { if (b >> i & 1) r ^= x; x <<= 1; if (x & 256) x ^= poly; } return (u8)r; }
inline u8 ginv(u8 a, int poly) { u8 r = 1, b = a; int e = 254; for (; e; e >>= 1) { if (e & 1) r = gmul(r, b, poly); b = gmul(b, b, poly); } return a ? r : 0; }
inline u8 rol8(u8 x, int n) { return (u8)(x << n | x >> ((8 - n) & 7)); }
inline u32 rol(u32 x, int n) { return n ? x << n | x >> (32 - n) : x; }
struct Tab { u8 as[256], ai[256], ss[256], m[16][256];
    Tab() { for (int i = 0; i < 256; i++) { u8 v = ginv((u8)i, 0x11b); as[i] = (u8)(v ^ rol8(v, 1) ^ rol8(v, 2) ^ rol8(v, 3) ^ rol8(v, 4) ^ 0x63); }
        for (int i = 0; i < 256; i++) ai[as[i]] = (u8)i;
        auto A = [](u8 x) { u8 r = 0; for (int i = 0; i < 8; i++) r |= (u8)(__builtin_parity(rol8(0xA7, i) & x) << i); return r; };
        for (int i = 0; i < 256; i++) ss[i] = (u8)(A(ginv((u8)(A((u8)i) ^ 0xD3), 0x1F5)) ^ 0xD3);
        for (int k = 0; k < 16; k++) for (int i = 0; i < 256; i++) m[k][i] = gmul((u8)i, (u8)k, 0x11b); } };
inline const Tab& T() { static Tab t; return t; }
// --- AES
struct Aes { int nk, nr; u8 w[240]; };
inline void aes_key(Aes& a, const u8* k, int len, Cov* c = nullptr)
{
    a.nk = len / 4; a.nr = a.nk + 6; memcpy(a.w, k, len); u8 rc = 1;
    for (int i = a.nk; i < 4 * (a.nr + 1); i++) {
        u8 t[4]; memcpy(t, a.w + 4 * (i - 1), 4);
        bool sub = i % a.nk == 0 || (a.nk > 6 && i % a.nk == 4);
        if (i % a.nk == 0) { u8 x = t[0]; t[0] = t[1]; t[1] = t[2]; t[2] = t[3]; t[3] = x; }
        if (sub) for (int j = 0; j < 4; j++) { if (c) (*c)(i, j, t[j]); t[j] = T().as[t[j]]; }
        if (i % a.nk == 0) { t[0] ^= rc; rc = gmul(rc, 2, 0x11b); }
        for (int j = 0; j < 4; j++) a.w[4 * i + j] = a.w[4 * (i - a.nk) + j] ^ t[j];
    }
}
inline void aes_enc(const Aes& a, u8* o, const u8* in, Cov* c = nullptr)
{
    u8 s[16], t[16]; for (int i = 0; i < 16; i++) s[i] = in[i] ^ a.w[i];
    for (int r = 1; r <= a.nr; r++) {
        for (int i = 0; i < 16; i++) { if (c) (*c)(r - 1, i, s[i]); s[i] = T().as[s[i]]; }
        for (int col = 0; col < 4; col++) for (int row = 0; row < 4; row++) t[4 * col + row] = s[4 * ((col + row) % 4) + row];
        if (r < a.nr) for (int col = 0; col < 4; col++) { u8* p = t + 4 * col; u8 q[4]; for (int i = 0; i < 4; i++) q[i] = T().m[2][p[i]] ^ T().m[3][p[(i + 1) & 3]] ^ p[(i + 2) & 3] ^ p[(i + 3) & 3]; memcpy(p, q, 4); }
        for (int i = 0; i < 16; i++) s[i] = t[i] ^ a.w[16 * r + i];
    }
    memcpy(o, s, 16);
}
inline void aes_dec(const Aes& a, u8* o, const u8* in, Cov* c = nullptr)
{
    u8 s[16], t[16]; for (int i = 0; i < 16; i++) s[i] = in[i] ^ a.w[16 * a.nr + i];
    for (int r = a.nr; r >= 1; r--) {
        for (int col = 0; col < 4; col++) for (int row = 0; row < 4; row++) t[4 * ((col + row) % 4) + row] = s[4 * col + row];
        for (int i = 0; i < 16; i++) { if (c) (*c)(r - 1, i, t[i]); s[i] = T().ai[t[i]] ^ a.w[16 * (r - 1) + i]; }
        if (r > 1) for (int col = 0; col < 4; col++) { u8* p = s + 4 * col; u8 q[4]; for (int i = 0; i < 4; i++) q[i] = T().m[14][p[i]] ^ T().m[11][p[(i + 1) & 3]] ^ T().m[13][p[(i + 2) & 3]] ^ T().m[9][p[(i + 3) & 3]]; memcpy(p, q, 4); }
    }
    memcpy(o, s, 16);
}
// the user key whose schedule has the given nk words at position pos
inline void aes_key_at(u8* k, int len, int pos, const u8* words)
{
    int nk = len / 4; u8 w[240]; memcpy(w + 4 * pos, words, len); u8 rcs[16], rc = 1; for (int i = 1; i < 16; i++) { rcs[i] = rc; rc = gmul(rc, 2, 0x11b); }
    for (int i = pos + nk - 1; i >= nk; i--) { u8 t[4]; memcpy(t, w + 4 * (i - 1), 4); if (i % nk == 0) { u8 x = t[0]; t[0] = t[1]; t[1] = t[2]; t[2] = t[3]; t[3] = x; } if (i % nk == 0 || (nk > 6 && i % nk == 4)) for (int j = 0; j < 4; j++) t[j] = T().as[t[j]]; if (i % nk == 0) t[0] ^= rcs[i / nk]; for (int j = 0; j < 4; j++) w[4 * (i - nk) + j] = w[4 * i + j] ^ t[j]; }
    memcpy(k, w, len);
}
// plaintext that reaches the given state before the S-boxes of round r+1 (r = 0: the whitened input)
inline void aes_back(const Aes& a, u8* p, const u8* st, int r)
{
    u8 s[16], t[16]; for (int i = 0; i < 16; i++) s[i] = st[i];
    for (; r >= 1; r--) { for (int i = 0; i < 16; i++) s[i] ^= a.w[16 * r + i];
        if (r < a.nr) for (int col = 0; col < 4; col++) { u8* p2 = s + 4 * col; u8 q[4]; for (int i = 0; i < 4; i++) q[i] = T().m[14][p2[i]] ^ T().m[11][p2[(i + 1) & 3]] ^ T().m[13][p2[(i + 2) & 3]] ^ T().m[9][p2[(i + 3) & 3]]; memcpy(p2, q, 4); }
        for (int col = 0; col < 4; col++) for (int row = 0; row < 4; row++) t[4 * ((col + row) % 4) + row] = s[4 * col + row];
        for (int i = 0; i < 16; i++) s[i] = T().ai[t[i]]; }
    for (int i = 0; i < 16; i++) p[i] = s[i] ^ a.w[i];
}
// --- SM4
struct Sm4 { u32 rk[32]; };
inline u32 ld(const u8* p) { return (u32)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
inline u32 tau(u32 x, int r, Cov* c) { u32 y = 0; for (int j = 0; j < 4; j++) { u8 b = (u8)(x >> (24 - 8 * j)); if (c) (*c)(r, j, b); y = y << 8 | T().ss[b]; } return y; }
inline void sm4_key(Sm4& s, const u8* k, Cov* c = nullptr)
{
    static const u32 FK[4] = {0xA3B1BAC6, 0x56AA3350, 0x677D9197, 0xB27022DC}; u32 K[36];
    for (int i = 0; i < 4; i++) K[i] = ld(k + 4 * i) ^ FK[i];
    for (int i = 0; i < 32; i++) { u32 ck = 0; for (int j = 0; j < 4; j++) ck = ck << 8 | (u8)((4 * i + j) * 7); u32 t = tau(K[i + 1] ^ K[i + 2] ^ K[i + 3] ^ ck, i, c); s.rk[i] = K[i + 4] = K[i] ^ t ^ rol(t, 13) ^ rol(t, 23); }
}
inline void sm4_crypt(const Sm4& s, u8* o, const u8* in, bool dec, Cov* c = nullptr)
{
    u32 X[36]; for (int i = 0; i < 4; i++) X[i] = ld(in + 4 * i);
    for (int i = 0; i < 32; i++) { u32 t = tau(X[i + 1] ^ X[i + 2] ^ X[i + 3] ^ s.rk[dec ? 31 - i : i], i, c); X[i + 4] = X[i] ^ t ^ rol(t, 2) ^ rol(t, 10) ^ rol(t, 18) ^ rol(t, 24); }
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) o[4 * i + j] = (u8)(X[35 - i] >> (24 - 8 * j));
}
inline void sm4_key_at(u8* k, int pos, const u8* words)
{
    static const u32 FK[4] = {0xA3B1BAC6, 0x56AA3350, 0x677D9197, 0xB27022DC}; u32 K[36]; for (int i = 0; i < 4; i++) K[pos + i] = ld(words + 4 * i);
    for (int i = pos - 1; i >= 0; i--) { u32 ck = 0; for (int j = 0; j < 4; j++) ck = ck << 8 | (u8)((4 * i + j) * 7); u32 t = tau(K[i + 1] ^ K[i + 2] ^ K[i + 3] ^ ck, i, nullptr); K[i] = K[i + 4] ^ t ^ rol(t, 13) ^ rol(t, 23); }
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) k[4 * i + j] = (u8)((K[i] ^ FK[i]) >> (24 - 8 * j));
}
inline void sm4_back(const Sm4& s, u8* p, const u8* st, int r)
{
    u32 X[36]; for (int i = 0; i < 4; i++) X[r + i] = ld(st + 4 * i);
    for (int i = r - 1; i >= 0; i--) { u32 t = tau(X[i + 1] ^ X[i + 2] ^ X[i + 3] ^ s.rk[i], i, nullptr); X[i] = X[i + 4] ^ t ^ rol(t, 2) ^ rol(t, 10) ^ rol(t, 18) ^ rol(t, 24); }
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) p[4 * i + j] = (u8)(X[i] >> (24 - 8 * j));
}
inline bool self_test()
{
    u8 k[32], p[16], o[16]; for (int i = 0; i < 32; i++) k[i] = (u8)i; for (int i = 0; i < 16; i++) p[i] = (u8)(i * 17);
    const char* w[3] = {"69c4e0d86a7b0430d8cdb78070b4c55a", "dda97ca4864cdfe06eaf70a0ec0d7191", "8ea2b7ca516745bfeafc49904b496089"};
    for (int i = 0; i < 3; i++) { Aes a; aes_key(a, k, 16 + 8 * i); aes_enc(a, o, p); if (mc::hex(o, 16) != w[i]) return false; aes_dec(a, o, o); if (memcmp(o, p, 16)) return false; }
    Bytes s = mc::unhex("0123456789abcdeffedcba9876543210"); Sm4 m; sm4_key(m, s.data()); u8 x[16]; memcpy(x, s.data(), 16); sm4_crypt(m, x, x, false);
    if (mc::hex(x, 16) != "681edf34d206965e86b3e94f536e4246") return false;
    for (int i = 1; i < 100000; i++) sm4_crypt(m, x, x, false); // GB/T 32907 example 2: the last 900000 are skipped here
    for (int i = 100000; i > 0; i--) sm4_crypt(m, x, x, true);
    return !memcmp(x, s.data(), 16);
}
} // namespace refblk
