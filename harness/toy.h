// Small keyed block permutations with any block size and parallel width, and
// reference implementations of the confidentiality modes written straight from
// the standards (one whole message, one byte vector in, one out).
#pragma once
#include "mc.h"
#include <gmlib/block_cipher_mode/block_cipher.h>

namespace toy {
using mc::u8; using mc::Bytes; using mc::u64;
inline u8 rol(u8 v, int r) { return (u8)((v << r) | (v >> (8 - r))); }

template <size_t BS, size_t PN>
class Toy : public block_cipher_mode::BlockCipher {
public:
    static constexpr std::size_t BLOCK_SIZE = BS, USER_KEY_LEN = 4, PARALLEL_NUM = PN;
    u8 k[4] = {0, 0, 0, 0}; int dir = -1; 
    void set_key(const u8* uk, int enc) override { memcpy(k, uk, 4); dir = enc; }
    __attribute__((noinline)) void E(u8* x) const
    {
        for (int r = 0; r < 2; r++) {
            u8 p = (u8)(k[r] ^ 0x5a);
            for (size_t i = 0; i < BS; i++) { x[i] = (u8)(rol(x[i] ^ k[(i + r) % 4], 3) + p * 5 + (u8)i); p = x[i]; }
            p = k[2 + r];
            for (size_t i = BS; i-- > 0;) { x[i] = (u8)((x[i] ^ p) * 13 + 7); p = x[i]; }
        }
    }
    __attribute__((noinline)) void D(u8* x) const
    {
        for (int r = 1; r >= 0; r--) {
            for (size_t i = 0; i < BS; i++) { u8 p = i + 1 < BS ? x[i + 1] : k[2 + r]; x[i] = (u8)(((u8)(x[i] - 7) * 197) ^ p); }
            for (size_t i = BS; i-- > 0;) { u8 p = i ? x[i - 1] : (u8)(k[r] ^ 0x5a); x[i] = (u8)(rol((u8)(x[i] - (u8)i - p * 5), 5) ^ k[(i + r) % 4]); }
        }
    }
    void one(u8* o, const u8* in, bool e) const { u8 t[BS]; memcpy(t, in, BS); if (e) E(t); else D(t); memcpy(o, t, BS); }
    void encrypt_block(u8* o, const u8* in) const override { one(o, in, true); }
    void decrypt_block(u8* o, const u8* in) const override { one(o, in, false); }
    void encrypt_blocks(u8* o, const u8* in, std::size_t n) const override { for (size_t i = 0; i < n; i++) one(o + i * BS, in + i * BS, true); }
    void decrypt_blocks(u8* o, const u8* in, std::size_t n) const override { for (size_t i = 0; i < n; i++) one(o + i * BS, in + i * BS, false); }
};

enum Mode { ECB, CBC, CFB, OFB, CTR, NMODE };
inline const char* mode_name(int m) { static const char* n[] = {"ECB", "CBC", "CFB", "OFB", "CTR"}; return n[m]; }
inline void inc_be(u8* c, size_t n) { for (size_t i = n; i-- > 0;) if (++c[i]) break; }

// E/D: the raw block permutations (as plain functions of a keyed cipher)
struct Perm { std::function<void(u8*)> E, D; size_t bs; };
template <class C> Perm perm_of(const u8* key)
{
    auto ce = std::make_shared<C>(); ce->set_key(key, C::ENCRYPTION);
    auto cd = std::make_shared<C>(); cd->set_key(key, C::DECRYPTION);
    Perm p; p.bs = C::BLOCK_SIZE;
    p.E = [ce](u8* x) { u8 t[C::BLOCK_SIZE]; ce->encrypt_block(t, x); memcpy(x, t, sizeof t); };
    p.D = [cd](u8* x) { u8 t[C::BLOCK_SIZE]; cd->decrypt_block(t, x); memcpy(x, t, sizeof t); };
    return p;
}
// ECB/CBC: in.size() must be a whole number of blocks
inline Bytes ref_mode(const Perm& p, int mode, bool enc, const Bytes& iv, const Bytes& in)
{
    size_t bs = p.bs; Bytes out(in.size()), c = iv;
    for (size_t o = 0; o < in.size(); o += bs) {
        size_t n = std::min(bs, in.size() - o);
        Bytes x(in.begin() + o, in.begin() + o + n), y(bs);
        switch (mode) {
        case ECB: y = x; if (enc) p.E(y.data()); else p.D(y.data()); break;
        case CBC:
            if (enc) { for (size_t i = 0; i < bs; i++) y[i] = x[i] ^ c[i]; p.E(y.data()); c = y; }
            else { y = x; p.D(y.data()); for (size_t i = 0; i < bs; i++) y[i] ^= c[i]; c = x; }
            break;
        case CFB: {
            Bytes s = c; p.E(s.data());
            for (size_t i = 0; i < n; i++) y[i] = x[i] ^ s[i];
            if (n == bs) c = enc ? y : x;
            break; }
        case OFB: p.E(c.data()); for (size_t i = 0; i < n; i++) y[i] = x[i] ^ c[i]; break;
        case CTR: { Bytes s = c; p.E(s.data()); for (size_t i = 0; i < n; i++) y[i] = x[i] ^ s[i]; inc_be(c.data(), bs); break; }
        }
        std::copy(y.begin(), y.begin() + n, out.begin() + o);
    }
    return out;
}
} // namespace toy
