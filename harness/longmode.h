// Single calls of any length to the mode objects: a cheap permutation, an input that repeats
// every MiB and an output area that keeps the last MiB written.
#pragma once
#include "modes.h"
namespace lm {
using namespace toy;
enum { MIB = 1 << 20 };
template <size_t BS, size_t PN> class Quick : public block_cipher_mode::BlockCipher { // BS a multiple of 8
public:
    static constexpr std::size_t BLOCK_SIZE = BS, USER_KEY_LEN = 8, PARALLEL_NUM = PN;
    u64 k = 0; void set_key(const u8* uk, int) override { memcpy(&k, uk, 8); }
    static inline void e(u64 k, u8* x) { u64 w[BS / 8], p = k; memcpy(w, x, BS); for (size_t i = 0; i < BS / 8; i++) { w[i] = (w[i] ^ p) * 0x9e3779b97f4a7c15ull; w[i] ^= w[i] >> 32; p = w[i] + k; } if (BS > 8) w[0] ^= w[BS / 8 - 1] * 0x2545f4914f6cdd1dull; memcpy(x, w, BS); }
    static inline void d(u64 k, u8* x) { u64 w[BS / 8]; memcpy(w, x, BS); if (BS > 8) w[0] ^= w[BS / 8 - 1] * 0x2545f4914f6cdd1dull; for (size_t i = BS / 8; i-- > 0;) { u64 p = i ? w[i - 1] + k : k, v = w[i]; v ^= v >> 32; w[i] = (v * 0xf1de83e19937733dull) ^ p; } memcpy(x, w, BS); }
    void encrypt_block(u8* o, const u8* in) const override { u8 t[BS]; memcpy(t, in, BS); e(k, t); memcpy(o, t, BS); }
    void decrypt_block(u8* o, const u8* in) const override { u8 t[BS]; memcpy(t, in, BS); d(k, t); memcpy(o, t, BS); }
    void encrypt_blocks(u8* o, const u8* in, std::size_t n) const override { for (size_t i = 0; i < n; i++) Quick::encrypt_block(o + i * BS, in + i * BS); }
    void decrypt_blocks(u8* o, const u8* in, std::size_t n) const override { for (size_t i = 0; i < n; i++) Quick::decrypt_block(o + i * BS, in + i * BS); }
};
// the modes, one octet position after the other
template <size_t BS> struct Ref {
    int mode; bool enc; u64 k; u8 c[BS], s[BS]; size_t pos = 0;
    Ref(int m, bool en, u64 key, const u8* iv) : mode(m), enc(en), k(key) { memcpy(c, iv, BS); }
    typedef Quick<BS, 1> Q;
    void block(u8* o, const u8* in) // pos on a block boundary
    {
        u8 x[BS]; memcpy(x, in, BS);
        switch (mode) {
        case ECB: if (enc) Q::e(k, x); else Q::d(k, x); break;
        case CBC: if (enc) { for (size_t i = 0; i < BS; i++) x[i] ^= c[i]; Q::e(k, x); memcpy(c, x, BS); } else { u8 y[BS]; memcpy(y, x, BS); Q::d(k, x); for (size_t i = 0; i < BS; i++) x[i] ^= c[i]; memcpy(c, y, BS); } break;
        case CFB: { u8 y[BS]; memcpy(y, x, BS); Q::e(k, c); for (size_t i = 0; i < BS; i++) x[i] ^= c[i]; memcpy(c, enc ? x : y, BS); break; }
        case OFB: Q::e(k, c); for (size_t i = 0; i < BS; i++) x[i] ^= c[i]; break;
        default: { u8 y[BS]; memcpy(y, c, BS); Q::e(k, y); for (size_t i = 0; i < BS; i++) x[i] ^= y[i]; inc_be(c, BS); }
        }
        memcpy(o, x, BS);
    }
};
}
