// GCM over a permutation that maps every block to the key: the ciphertext of zeros repeats the key
// and its tag has a closed form, whatever the length.
#pragma once
#include <sys/mman.h>
#include "gcm_if.h"
namespace lg {
using namespace mc; using namespace toy;
template <size_t PN> struct Const_ : block_cipher_mode::BlockCipher {
    static constexpr size_t BLOCK_SIZE = 16, USER_KEY_LEN = 16, PARALLEL_NUM = PN;
    u8 c[16];
    void set_key(const u8* k, int) override { memcpy(c, k, 16); }
    void encrypt_block(u8* o, const u8*) const override { memcpy(o, c, 16); }
    void decrypt_block(u8* o, const u8*) const override { memcpy(o, c, 16); }
    void encrypt_blocks(u8* o, const u8*, size_t n) const override { for (size_t i = 0; i < n; i++) memcpy(o + 16 * i, c, 16); }
    void decrypt_blocks(u8* o, const u8*, size_t n) const override { for (size_t i = 0; i < n; i++) memcpy(o + 16 * i, c, 16); }
};
using refgcm::Blk; using refgcm::mul;
inline Blk geo(const Blk& x, const Blk& h, u64 n) // x*(h + h^2 + ... + h^n)
{
    Blk s, hp; hp.hi = 1ull << 63; // s = sum_{1..m} h^i, hp = h^m, m = 0
    for (int b = 63; b >= 0; b--) { Blk t = mul(s, hp); s.hi ^= t.hi; s.lo ^= t.lo; hp = mul(hp, hp); if (n >> b & 1) { hp = mul(hp, h); s.hi ^= hp.hi; s.lo ^= hp.lo; } }
    return mul(x, s);
}
inline u8* zeros(size_t n) { u8* p = (u8*)mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) _exit(90); return p; }
inline Blk tag_of(const u8* key, u64 aad, u64 n) { Blk h = refgcm::load(key), y = geo(h, h, n / 16); if (n % 16) { u8 t[16] = {0}; memcpy(t, key, n % 16); Blk x = refgcm::load(t); y.hi ^= x.hi; y.lo ^= x.lo; y = mul(y, h); } y.hi ^= aad * 8; y.lo ^= n * 8; y = mul(y, h); u8 tg[16]; refgcm::store(tg, y); for (int k = 0; k < 16; k++) tg[k] ^= key[k]; return refgcm::load(tg); }
// the octets 0 and the octets of the key, up to 4 GiB
inline const u8* nul() { static u8* z = zeros((1ull << 32) + (1 << 22)); return z; }
inline const u8* keys(const Bytes& key) { static Repeat* kr = new Repeat(1 << 20, 4100, 8); static Bytes kk; if (kk != key) { kk = key; for (size_t k = 0; k < 1 << 20; k++) kr->p[k] = key[k % 16]; } return kr->p; }
inline u8* lout() { static Repeat* r = new Repeat(1 << 20, 4102, 6); return r->p; }
}
