#pragma once
#include "modes.h"
#include "ref_gcm.h"
#include <gmlib/block_cipher_mode/gcm_mode.h>
struct IGcm {
    virtual ~IGcm() = default;
    virtual IGcm* clone() const = 0;
    virtual void construct(const mc::u8* k, const mc::u8* iv, size_t ivl, const mc::u8* a, size_t al) = 0;
    virtual void init(const mc::u8* k, const mc::u8* iv, size_t ivl, const mc::u8* a, size_t al) = 0;
    virtual void update(mc::u8* o, size_t* ol, const mc::u8* in, size_t n) = 0;
    virtual void fin(mc::u8* o, size_t* ol, const mc::u8* in, size_t n) = 0;
    virtual void fin0(mc::u8* o, size_t* ol) = 0;
    virtual void get(mc::u8*) = 0;
    virtual void set(const mc::u8*) = 0;
};
template <class C, bool ENC> struct GcmImpl : IGcm {
    std::conditional_t<ENC, toy::B::GcmEncryptor<C>, toy::B::GcmDecryptor<C>> t;
    IGcm* clone() const override { return new GcmImpl(*this); }
    void construct(const mc::u8* k, const mc::u8* iv, size_t ivl, const mc::u8* a, size_t al) override { t = decltype(t)(k, iv, ivl, a, al); }
    void init(const mc::u8* k, const mc::u8* iv, size_t ivl, const mc::u8* a, size_t al) override { t.init(k, iv, ivl, a, al); }
    void update(mc::u8* o, size_t* ol, const mc::u8* in, size_t n) override { t.update(o, ol, in, n); }
    void fin(mc::u8* o, size_t* ol, const mc::u8* in, size_t n) override { t.do_final(o, ol, in, n); }
    void fin0(mc::u8* o, size_t* ol) override { t.do_final(o, ol); }
    void get(mc::u8* p) override { if constexpr (ENC) t.get_tag(p); }
    void set(const mc::u8* p) override { if constexpr (!ENC) t.set_tag(p); }
};
struct GKind { const char* name; size_t pn, klen; std::function<IGcm*()> enc, dec; std::function<toy::Perm(const mc::u8*)> perm; int tag; };
template <class C> GKind gkind(const char* n)
{
    static int tag = 0;
    return GKind{n, C::PARALLEL_NUM, C::USER_KEY_LEN, []() -> IGcm* { return new GcmImpl<C, true>(); }, []() -> IGcm* { return new GcmImpl<C, false>(); }, toy::perm_of<C>, ++tag};
}
#define GKIND(...) gkind<__VA_ARGS__>(#__VA_ARGS__)
namespace refgcm {
inline Blk inv(const Blk& a) // a^(2^128-2)
{
    Blk r; r.hi = 1ull << 63; Blk s = a; // s = a^(2^i)
    for (int i = 1; i < 128; i++) { s = mul(s, s); r = mul(r, s); }
    return r;
}
// 16-byte IV whose derived initial counter is exactly j0
inline Bytes iv_for_j0(const toy::Perm& p, const Bytes& j0)
{
    Bytes H(16, 0); p.E(H.data()); Blk hi = inv(load(H.data())), x = mul(load(j0.data()), hi); // = y1 ^ len
    u8 lb[16] = {0}; lb[15] = 128; Blk l = load(lb); x.hi ^= l.hi; x.lo ^= l.lo;
    Bytes iv(16); store(iv.data(), mul(x, hi)); return iv;
}
}
