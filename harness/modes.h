// Type-erased access to the real mode objects, so that the exploration code is
// compiled once and only thin wrappers are instantiated per (cipher, mode, direction).
#pragma once
#include <memory>
#include "toy.h"
#include <gmlib/block_cipher_mode/cbc_mode.h>
#include <gmlib/block_cipher_mode/cfb_mode.h>
#include <gmlib/block_cipher_mode/ctr_mode.h>
#include <gmlib/block_cipher_mode/ecb_mode.h>
#include <gmlib/block_cipher_mode/ofb_mode.h>
namespace toy {
namespace B = block_cipher_mode;
template <class C, int MODE, bool ENC> struct Sel;
template <class C> struct Sel<C, ECB, true> { using T = B::EcbEncryptor<C>; };
template <class C> struct Sel<C, ECB, false> { using T = B::EcbDecryptor<C>; };
template <class C> struct Sel<C, CBC, true> { using T = B::CbcEncryptor<C>; };
template <class C> struct Sel<C, CBC, false> { using T = B::CbcDecryptor<C>; };
template <class C> struct Sel<C, CFB, true> { using T = B::CfbEncryptor<C>; };
template <class C> struct Sel<C, CFB, false> { using T = B::CfbDecryptor<C>; };
template <class C> struct Sel<C, OFB, true> { using T = B::OfbEncryptor<C>; };
template <class C> struct Sel<C, OFB, false> { using T = B::OfbDecryptor<C>; };
template <class C> struct Sel<C, CTR, true> { using T = B::CtrEncryptor<C>; };
template <class C> struct Sel<C, CTR, false> { using T = B::CtrDecryptor<C>; };

struct IMode {
    virtual ~IMode() = default;
    virtual IMode* clone() const = 0;
    virtual void construct(const u8* key, const u8* iv) = 0; // fresh object through the keyed constructor
    virtual void init(const u8* key, const u8* iv) = 0;
    virtual void reset(const u8* iv) = 0;
    virtual void update(u8* o, size_t* ol, const u8* in, size_t n) = 0;
    virtual void fin(u8* o, size_t* ol, const u8* in, size_t n) = 0;
    virtual void fin0(u8* o, size_t* ol) = 0;
};
template <class C, int MODE, bool ENC> struct MImpl : IMode {
    using T = typename Sel<C, MODE, ENC>::T;
    T t;
    IMode* clone() const override { return new MImpl(*this); }
    void construct(const u8* k, const u8* iv) override { if constexpr (MODE == ECB) t = T(k); else t = T(k, iv); }
    void init(const u8* k, const u8* iv) override { if constexpr (MODE == ECB) t.init(k); else t.init(k, iv); }
    void reset(const u8* iv) override { if constexpr (MODE == ECB) t.reset(); else t.reset(iv); }
    void update(u8* o, size_t* ol, const u8* in, size_t n) override { t.update(o, ol, in, n); }
    void fin(u8* o, size_t* ol, const u8* in, size_t n) override { t.do_final(o, ol, in, n); }
    void fin0(u8* o, size_t* ol) override { t.do_final(o, ol); }
};
struct Kind { // one (cipher, mode, direction)
    const char* cname; size_t bs, pn; int mode; bool enc;
    std::function<IMode*()> make; std::function<Perm(const u8*)> perm; size_t klen; int tag;
    std::string name() const { return std::string(mode_name(mode)) + (enc ? " encrypt " : " decrypt ") + cname; }
};
inline std::vector<Kind>& kinds_seq() { static std::vector<Kind> k; return k; }
template <class C> std::vector<Kind> kinds_of(const char* cname)
{
    static int tag = 0; tag++;
    std::vector<Kind> r; Kind k{cname, C::BLOCK_SIZE, C::PARALLEL_NUM, 0, true, nullptr, perm_of<C>, C::USER_KEY_LEN, tag};
#define MK(M, E) k.mode = M; k.enc = E; k.make = []() -> IMode* { return new MImpl<C, M, E>(); }; r.push_back(k);
    MK(ECB, true) MK(ECB, false) MK(CBC, true) MK(CBC, false) MK(CFB, true) MK(CFB, false) MK(OFB, true) MK(OFB, false) MK(CTR, true) MK(CTR, false)
#undef MK
    return r;
}
#define KINDS(...) toy::kinds_of<__VA_ARGS__>(#__VA_ARGS__)
} // namespace toy
