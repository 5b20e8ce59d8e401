// One enumerated family of scripts over the whole public interface, used by C28 (threads),
// C29 (buffer bounds) and C30 (configurations). A script takes every buffer from a Ctx and
// reports everything it observes to it. Scripts use no mutable static state of their own.
#pragma once
#include <cstdint>
#include <cstring>
#include <exception>
#include <new>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <gmlib/aes/aes_mode.h>
#include <gmlib/asn1/asn1.h>
#include <gmlib/asn1/asn1_dump.h>
#include <gmlib/ghash/ghash.h>
#include <gmlib/hash_lib/hmac.h>
#include <gmlib/memory_utils/endian.h>
#include <gmlib/memory_utils/memxor.h>
#include <gmlib/number/mont256.h>
#include <gmlib/number/mpz.h>
#include <gmlib/number/uint256.h>
#include <gmlib/sm2/internal/sm2_asn1.h>
#include <gmlib/sm2/sm2.h>
#include <gmlib/sm3/sm3.h>
#include <gmlib/sm4/sm4_mode.h>
#include <gmlib/sm9/sm9.h>
namespace ops {
typedef std::uint8_t u8; typedef std::uint64_t u64; typedef std::size_t sz;
struct Ctx {
    virtual ~Ctx() {}
    virtual const u8* in(const u8* p, sz n) = 0;   // exactly n readable octets with this content
    virtual u8* out(sz max) = 0;                   // an output range of at most max octets
    virtual void wrote(u8* p, sz n) = 0;           // n octets of it were written by the call just made: observe them
    virtual void emit(const void* p, sz n) = 0;
    virtual void step() = 0;                       // between two calls of the interface
    void num(u64 v) { u8 b[8]; for (int i = 0; i < 8; i++) b[i] = (u8)(v >> (8 * i)); emit(b, 8); }
    void str(const char* s) { emit(s, strlen(s)); }
};
inline u64 mix(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; return x ^ x >> 33; }
struct Buf { // filler data
    u8 d[1600]; const u8* p() const { return d; }
    explicit Buf(u64 seed, sz n = 1600) { for (sz i = 0; i < n && i < sizeof d; i++) d[i] = seed == 0 ? 0 : seed == 1 ? 255 : (u8)mix(seed * 0x9e3779b97f4a7c15ull + i); }
};
inline const u8* fin(Ctx& c, u64 seed, sz n) { Buf b(seed, n); return c.in(b.d, n); }
inline void (*&in_gen())() { static void (*f)() = nullptr; return f; } // called by every generator before it writes
struct Rng : rng::Rng { // deterministic: filler words, optionally one chosen first word
    u64 s; u64 n = 0; int first; explicit Rng(u64 seed, int f = -1) : s(seed), first(f) {}
    const char* name() const override { return "filler"; }
    void gen(void* o, sz len) override { if (in_gen()) in_gen()(); for (sz i = 0; i < len; i++, n++) ((u8*)o)[i] = n < 32 && first >= 0 ? (u8)first : (u8)mix(s * 77 + 5 + n); }
};
typedef void (*Fn)(Ctx&, long);
enum { LIGHT = 0, HEAVY = 1, VHEAVY = 2 };
struct Op { const char* name; long quick, thorough; int weight; Fn fn; };
inline std::vector<Op>& all() { static std::vector<Op>& v = *new std::vector<Op>; return v; } // never destroyed
struct Reg { Reg(const char* n, long q, long t, int w, Fn f) { all().push_back({n, q, t, w, f}); } };
#define OPS_CAT2(a, b) a##b
#define OPS_CAT(a, b) OPS_CAT2(a, b)
#ifdef OPS_EARLY // registered before the static objects of the library are made
#define OPS_PRIO __attribute__((init_priority(101)))
#else
#define OPS_PRIO
#endif
#define OP(name, q, t, w) static void OPS_CAT(op_, __LINE__)(Ctx&, long); static Reg OPS_CAT(reg_, __LINE__) OPS_PRIO(name, q, t, w, OPS_CAT(op_, __LINE__)); static void OPS_CAT(op_, __LINE__)(Ctx & c, long v)
// pointer for a possibly empty chunk
template <class F> void guarded(Ctx& c, F f) { try { f(); } catch (std::exception&) { c.str("exception"); } }

template <class C> constexpr sz width() { return std::is_same<C, sm4::SM4>::value ? 16 : 2; } // the same scripts in every configuration
// --- block ciphers ----------------------------------------------------------
template <class C> void cipher(Ctx& c, long v)
{
    C e, d; const u8* k = fin(c, v, C::USER_KEY_LEN); e.set_key(k, C::ENCRYPTION); c.step(); d.set_key(k, C::DECRYPTION); c.step(); sz n = v % (2 * width<C>() + 2), B = C::BLOCK_SIZE;
    const u8* in = fin(c, v * 3 + 1, B); u8* o = c.out(B); e.encrypt_block(o, in); c.wrote(o, B); c.step(); o = c.out(B); d.decrypt_block(o, in); c.wrote(o, B); c.step();
    in = fin(c, v * 5 + 2, n * B); o = c.out(n * B); e.encrypt_blocks(o, in, n); c.wrote(o, n * B); c.step(); o = c.out(n * B); d.decrypt_blocks(o, in, n); c.wrote(o, n * B); c.step();
    o = c.out(n * B); if (n) memcpy(o, in, n * B); e.encrypt_blocks(o, o, n); c.wrote(o, n * B); d.decrypt_blocks(o, o, n); c.wrote(o, n * B);
    C cp(e); o = c.out(B); cp.encrypt_block(o, fin(c, v, B)); c.wrote(o, B);
}
OP("AES-128", 40, 200, LIGHT) { cipher<aes::AES128>(c, v); }
OP("AES-192", 40, 200, LIGHT) { cipher<aes::AES192>(c, v); }
OP("AES-256", 40, 200, LIGHT) { cipher<aes::AES256>(c, v); }
OP("SM4", 80, 400, LIGHT) { cipher<sm4::SM4>(c, v); }
// --- modes: init, three updates, final, then reset and one-call use ----------
template <class M, class... A> void mode_run(Ctx& c, M& m, long v, sz B, sz P)
{
    sz total = v % (B * P + 3 * B + 2), a = mix(v) % (total + 1), b = mix(v + 9) % (total - a + 1), ch[3] = {a, b, total - a - b}; u64 seed = v + 11; sz n;
    for (int i = 0; i < 3; i++) { const u8* in = fin(c, seed + i, ch[i]); n = 12345; u8* o = c.out(ch[i] + B); m.update(o, &n, in, ch[i]); c.num(n); c.wrote(o, n); c.step(); }
    guarded(c, [&] { n = 12345; sz t = v % 3 ? mix(v + 3) % (2 * B + 1) : 0; const u8* in = fin(c, seed + 7, t); u8* o = c.out(t + B); if (v % 5 == 0) m.do_final(o, &n); else m.do_final(o, &n, in, t); c.num(n); c.wrote(o, n); });
}
template <class M, bool IV> void mode(Ctx& c, long v, sz P)
{
    const sz B = M::BLOCK_SIZE; M m; const u8* k = fin(c, v + 1, M::USER_KEY_LEN); const u8* iv = fin(c, v + 2, B);
    if constexpr (IV) m.init(k, iv); else m.init(k); c.step(); mode_run(c, m, v, B, P); c.step();
    if constexpr (IV) m.reset(fin(c, v + 3, B)); else m.reset(); mode_run(c, m, v / 2 + 5, B, P); c.step();
    // whole blocks in place through the keyed constructor
    M q = [&] { if constexpr (IV) return M(k, iv); else return M(k); }(); sz n = B * (v % (P + 3)), w; u8* o = c.out(n); { Buf f(v + 4, n); memcpy(o, f.d, n); } q.update(o, &w, o, n); c.num(w); c.wrote(o, n);
}
template <template <class> class E, template <class> class D, bool IV> void modes(Ctx& c, long v)
{
    switch (v % 8) { case 0: mode<E<sm4::SM4>, IV>(c, v / 8, width<sm4::SM4>()); break; case 1: mode<D<sm4::SM4>, IV>(c, v / 8, width<sm4::SM4>()); break; case 2: mode<E<aes::AES128>, IV>(c, v / 8, width<aes::AES128>()); break; case 3: mode<D<aes::AES128>, IV>(c, v / 8, width<aes::AES128>()); break;
    case 4: mode<E<aes::AES192>, IV>(c, v / 8, 1); break; case 5: mode<D<aes::AES192>, IV>(c, v / 8, 1); break; case 6: mode<E<aes::AES256>, IV>(c, v / 8, width<aes::AES256>()); break; default: mode<D<aes::AES256>, IV>(c, v / 8, width<aes::AES256>()); }
}
namespace B = block_cipher_mode;
OP("ECB", 3200, 12800, LIGHT) { modes<B::EcbEncryptor, B::EcbDecryptor, false>(c, v); }
OP("CBC", 3200, 12800, LIGHT) { modes<B::CbcEncryptor, B::CbcDecryptor, true>(c, v); }
OP("CFB", 3200, 12800, LIGHT) { modes<B::CfbEncryptor, B::CfbDecryptor, true>(c, v); }
OP("OFB", 3200, 12800, LIGHT) { modes<B::OfbEncryptor, B::OfbDecryptor, true>(c, v); }
OP("CTR", 3200, 12800, LIGHT) { modes<B::CtrEncryptor, B::CtrDecryptor, true>(c, v); }
template <class C> void gcm(Ctx& c, long v)
{
    sz ivl = v % 4 == 0 ? 12 : 1 + mix(v) % 40, al = mix(v + 1) % 50, n = v % (width<C>() * 16 + 40), a = mix(v + 2) % (n + 1); const u8 *k = fin(c, v + 1, C::USER_KEY_LEN), *iv = fin(c, v + 2, ivl), *aad = fin(c, v + 3, al); sz w, got = 0;
    B::GcmEncryptor<C> e; e.init(k, iv, ivl, aad, al); c.step(); const u8* p = fin(c, v + 4, n); u8 ct[1700]; { u8* o = c.out(a + 16); const u8* q = c.in(p, a); e.update(o, &w, q, a); c.num(w); c.wrote(o, w); memcpy(ct, o, w); got = w; c.step(); }
    { u8* o = c.out(n - a + 16); const u8* q = c.in(p + a, n - a); e.do_final(o, &w, q, n - a); c.num(w); c.wrote(o, w); memcpy(ct + got, o, w); got += w; c.step(); } u8* tg = c.out(16); e.get_tag(tg); c.wrote(tg, 16); u8 tag[16]; memcpy(tag, tg, 16); c.step();
    for (int bad = 0; bad < 2; bad++) { B::GcmDecryptor<C> d(k, iv, ivl, aad, al); u8 t[16]; memcpy(t, tag, 16); t[v % 16] ^= bad; d.set_tag(c.in(t, 16)); c.step(); u8* o = c.out(a + 16); d.update(o, &w, c.in(ct, a), a); c.num(w); c.wrote(o, w); c.step(); sz h = w; guarded(c, [&] { o = c.out(n - a + 16); d.do_final(o, &w, c.in(ct + a, got - a), got - a); c.num(w + h); c.wrote(o, w); }); c.step(); }
}
OP("GCM SM4", 1200, 4800, LIGHT) { gcm<sm4::SM4>(c, v); }
OP("GCM AES-128", 600, 1800, LIGHT) { gcm<aes::AES128>(c, v); }
OP("GCM AES-192", 300, 1200, LIGHT) { gcm<aes::AES192>(c, v); }
OP("GCM AES-256", 400, 1600, LIGHT) { gcm<aes::AES256>(c, v); }
// --- hashes -----------------------------------------------------------------
template <class H> void hash_run(Ctx& c, H& h, long v, sz D)
{
    sz n = v % 300, a = mix(v) % (n + 1); h.update(fin(c, v, a), a); c.step(); H cp(h); h.update(fin(c, v + 1, n - a), n - a); c.step(); sz t = mix(v + 1) % 70, t2 = t / 2; if (D == 16 && v % 4) { t += (2048 - n - t) % 16; t2 += (2048 - a - t2) % 16; } // GHASH takes whole blocks only
    guarded(c, [&] { u8* o = c.out(D); h.do_final(o, fin(c, v + 2, t), t); c.wrote(o, D); }); c.step(); guarded(c, [&] { u8* o = c.out(D); cp.do_final(o, fin(c, v + 3, t2), t2); c.wrote(o, D); }); c.step();
    if constexpr (std::is_same<H, sm3::SM3>::value) { h.reset(); u8* o = c.out(D); h.do_final(o, fin(c, v + 4, t), t); c.wrote(o, D); }
}
OP("SM3", 600, 3000, LIGHT) { sm3::SM3 h; hash_run(c, h, v, 32); }
OP("GHASH", 600, 3000, LIGHT) { ghash::GHash h(fin(c, v % 50, 16)); c.step(); hash_run(c, h, v, 16); }
OP("HMAC", 400, 2000, LIGHT) { sz kl = v % 140; hash_lib::HMac<sm3::SM3> h(fin(c, v, kl), kl); c.step(); sz n = mix(v) % 150, t = mix(v + 1) % 70; h.update(fin(c, v + 1, n), n); c.step(); u8* o = c.out(32); h.do_final(o, fin(c, v + 2, t), t); c.wrote(o, 32); c.step(); h.set_key(fin(c, v + 3, t), t); c.step(); o = c.out(32); h.do_final(o, fin(c, v + 4, n), n); c.wrote(o, 32); }
// --- memory helpers ---------------------------------------------------------
template <sz N> void mx(Ctx& c, long v) { u8* o = c.out(N); const u8 *a = fin(c, v, N), *b = fin(c, v + 1, N); memory_utils::memxor<N>(o, a, b); c.wrote(o, N); o = c.out(N); if (N) memcpy(o, a, N); memory_utils::memxor<N>(o, o, b); c.wrote(o, N); o = c.out(N); if (N) memcpy(o, b, N); memory_utils::memxor<N>(o, a, o); c.wrote(o, N); }
template <sz... N> void mxs(Ctx& c, long v, std::index_sequence<N...>) { (mx<N * 7 + N / 9>(c, v), ...); }
OP("memxor", 1300, 1300, LIGHT) { sz n = v % 1300; u8* o = c.out(n); memory_utils::memxor_n(o, fin(c, v, n), fin(c, v + 1, n), n); c.wrote(o, n); o = c.out(n); if (n) memcpy(o, fin(c, v + 2, n), n); memory_utils::memxor_n(o, o, fin(c, v + 3, n), n); c.wrote(o, n);
    o = c.out(n); if (n) memcpy(o, fin(c, v + 4, n), n); memory_utils::memxor_n(o, fin(c, v + 5, n), o, n); c.wrote(o, n); const u8* same = fin(c, v + 6, n); o = c.out(n); memory_utils::memxor_n(o, same, same, n); c.wrote(o, n); o = c.out(n); if (n) memcpy(o, same, n); memory_utils::memxor_n(o, o, o, n); c.wrote(o, n); }
OP("memxor fixed", 20, 100, LIGHT) { mxs(c, v, std::make_index_sequence<90>()); mx<16>(c, v); mx<32>(c, v); mx<64>(c, v); mx<128>(c, v); mx<256>(c, v); mx<512>(c, v); mx<1>(c, v); mx<2>(c, v); mx<4>(c, v); mx<8>(c, v); }
OP("endian", 64, 256, LIGHT)
{
    using namespace memory_utils; const u8* p = fin(c, v, 8); c.num(load64_le(p)); c.num(load64_be(p)); p = c.in(p, 4); c.num(load32_le(p)); c.num(load32_be(p)); p = c.in(p, 2); c.num(load16_le(p)); c.num(load16_be(p)); p = c.in(p, 1); c.num(load8_le(p)); c.num(load8_be(p)); u64 x = mix(v);
    u8* o = c.out(8); store64_le(o, x); c.wrote(o, 8); o = c.out(8); store64_be(o, x); c.wrote(o, 8); o = c.out(4); store32_le(o, (std::uint32_t)x); c.wrote(o, 4); o = c.out(4); store32_be(o, (std::uint32_t)x); c.wrote(o, 4); o = c.out(2); store16_le(o, (std::uint16_t)x); c.wrote(o, 2); o = c.out(2); store16_be(o, (std::uint16_t)x); c.wrote(o, 2); o = c.out(1); store8_le(o, (u8)x); c.wrote(o, 1); o = c.out(1); store8_be(o, (u8)x); c.wrote(o, 1);
}
// --- numbers ----------------------------------------------------------------
// value number v of a family around the interesting ones, big endian
inline void val(u8 b[32], long v)
{
    static const char* sp[4] = {"FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123", "FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF", "B640000002A3A6F1D603AB4FF58EC74449F2934B18EA8BEEE56EE19CD69ECF25", "B640000002A3A6F1D603AB4FF58EC74521F2934B1A7AEEDBE56F9B27E351457D"};
    memset(b, 0, 32); int k = (int)(v % 9); long d = v / 9 % 5 - 2, bump = v / 45; auto hx = [](char ch) { return ch <= '9' ? ch - '0' : ch - 'A' + 10; };
    if (k < 4) for (int i = 0; i < 32; i++) b[i] = (u8)(hx(sp[k][2 * i]) << 4 | hx(sp[k][2 * i + 1])); else if (k == 5) memset(b, 255, 32); else if (k == 6) b[31 - bump % 32] = (u8)(1 << bump / 32 % 8); else if (k > 6) { Buf f(v + 3, 32); memcpy(b, f.d, 32); if (k == 8) memset(b, 0, bump % 32); }
    for (int i = 31, cy = (int)d; i >= 0 && cy; i--) { int x = b[i] + cy; b[i] = (u8)x; cy = x < 0 ? -1 : x > 255 ? 1 : 0; }
}
OP("uint256", 2000, 20000, LIGHT)
{
    using namespace number; u8 x[32], y[32]; val(x, v % 97 * 3 + v / 97); val(y, v / 97 * 5 + 1 + v % 11); uint256_t a, b, r; uint256_from_bytes(a, c.in(x, 32)); uint256_from_bytes(b, c.in(y, 32)); auto put = [&](const uint256_t& t) { u8* o = c.out(32); uint256_to_bytes(o, t); c.wrote(o, 32); };
    c.num(uint256_add_carry(r, a, b)); put(r); c.num(uint256_sub_borrow(r, a, b)); put(r); c.num(uint256_dbl_carry(r, a)); put(r); c.num(uint256_tpl_carry(r, a)); put(r); c.num(uint256_cmp(a, b) > 0); c.num(uint256_cmp(a, b) < 0); c.num(uint256_equal(a, b)); c.num(uint256_equal_zero(a)); c.num(uint256_equal_one(a)); for (int i = 0; i < 256; i++) c.num(uint256_bittest(a, i)); c.num(uint256_add_carry_uint32(r, a, 0x89abcdefu)); put(r); c.num(uint256_sub_borrow_uint32(r, a, 0x89abcdefu)); put(r); c.num(uint256_mul_carry_uint32(r, a, 0x89abcdefu)); put(r); c.num(uint256_cmp_uint32(a, 1) > 0);
    if (y[0] > 0x80) { u8 wide[64]; val(wide, v); val(wide + 32, v * 3 + 1); sz n = v % 65; uint256_mod(r, c.in(wide, n), n, b); put(r); } uint256_t s; uint256_cpy(s, a); put(s); uint256_set_zero(s); put(s); uint256_set_one(s); put(s); uint256_set_uint32(s, 0xfedcba98u); put(s);
}
template <class F> void mont_ops(Ctx& c, long v, F) {}
OP("SM2 field", 1000, 8000, LIGHT)
{
    using namespace sm2::internal; u8 x[32], y[32]; val(x, v % 83 * 3 + v / 83); val(y, v / 83 * 5 + 2 + v % 7); sm2_fp_t a, b, r; sm2_fp_from_bytes(a, c.in(x, 32)); sm2_fp_from_bytes(b, c.in(y, 32)); auto put = [&] { u8* o = c.out(32); sm2_fp_to_bytes(o, r); c.wrote(o, 32); };
    sm2_fp_add(r, a, b); put(); sm2_fp_sub(r, a, b); put(); sm2_fp_mul(r, a, b); put(); sm2_fp_sqr(r, a); put(); sm2_fp_dbl(r, a); put(); sm2_fp_tpl(r, a); put(); sm2_fp_neg(r, a); put(); sm2_fp_inv(r, a); put(); sm2_fp_equal(a, b); sm2_fn_t f, g, h; sm2_fn_from_bytes(f, c.in(x, 32)); sm2_fn_from_bytes(g, c.in(y, 32)); auto putn = [&] { u8* o = c.out(32); sm2_fn_to_bytes(o, h); c.wrote(o, 32); }; sm2_fn_add(h, f, g); putn(); sm2_fn_sub(h, f, g); putn(); sm2_fn_mul(h, f, g); putn(); sm2_fn_inv(h, f); putn();
}
OP("SM9 field", 1000, 8000, LIGHT)
{
    using namespace sm9::internal; u8 x[32], y[32]; val(x, v % 83 * 3 + v / 83); val(y, v / 83 * 5 + 2 + v % 7); sm9_fp_t a, b, r; sm9_fp_from_bytes(a, c.in(x, 32)); sm9_fp_from_bytes(b, c.in(y, 32)); auto put = [&] { u8* o = c.out(32); sm9_fp_to_bytes(o, r); c.wrote(o, 32); };
    sm9_fp_add(r, a, b); put(); sm9_fp_sub(r, a, b); put(); sm9_fp_mul(r, a, b); put(); sm9_fp_sqr(r, a); put(); sm9_fp_dbl(r, a); put(); sm9_fp_tpl(r, a); put(); sm9_fp_neg(r, a); put(); sm9_fp_inv(r, a); put(); int q = sm9_fp_sqrt(r, a); c.num(q != 0); if (!q) put();
    if (v % 10 == 0) { u8 w[384]; for (int i = 0; i < 12; i++) val(w + 32 * i, v + i * 5); sm9_fp12_t f, g; sm9_fp12_from_bytes(f, c.in(w, 384)); auto p12 = [&] { u8* o = c.out(384); sm9_fp12_to_bytes(o, g); c.wrote(o, 384); }; sm9_fp12_sqr(g, f); p12(); sm9_fp12_mul(g, f, g); p12(); sm9_fp12_inv(g, f); p12(); }
}
// --- ASN.1 ------------------------------------------------------------------
OP("ASN.1 encode", 400, 4000, LIGHT)
{
    using namespace asn1; sz n = v % 300, w; Buf f(v, 320); if (v % 3 == 0) memset(f.d, 0, v % 40); const u8* d = c.in(f.d, n); u8* o = c.out(asn1_encode_integer_outl(d, n)); asn1_encode_integer_tlv(o, &w, d, n); c.num(w); c.wrote(o, w); o = c.out(asn1_encode_octet_string_outl(n)); asn1_encode_octet_string_tlv(o, &w, d, n); c.num(w); c.wrote(o, w); c.step();
    sz bits = n ? n * 8 - v % 8 : 0; o = c.out(asn1_encode_bit_string_outl(bits)); asn1_encode_bit_string_tlv(o, &w, d, n, bits); c.num(w); c.wrote(o, w); o = c.out(3); asn1_encode_boolean_tlv(o, &w, v & 1); c.num(w); c.wrote(o, w); sz len = v % 4 == 0 ? (sz)1 << v % 64 : n; o = c.out(ASN1_ENCODE_TLV_MAX_OUTL(0)); asn1_encode_sequence_tl(o, &w, len); c.num(w); c.wrote(o, w); o = c.out(ASN1_ENCODE_TLV_MAX_OUTL(0)); asn1_encode_set_tl(o, &w, len); c.num(w); c.wrote(o, w);
}
inline sz asn_case(u8* b, long v)
{   // an encoding, whole, cut, with one octet changed, or filler
    using namespace asn1; sz w = 0, n = mix(v) % 40; Buf f(v + 1, 64); u8 t[200]; int k = (int)(v % 7); if (k == 0) asn1_encode_boolean_tlv(b, &w, v & 8); else if (k == 1) asn1_encode_integer_tlv(b, &w, f.d, n); else if (k == 2) asn1_encode_bit_string_tlv(b, &w, f.d, n, n ? n * 8 - (f.d[60] & 7) : 0); else if (k == 3) asn1_encode_octet_string_tlv(b, &w, f.d, n); else if (k == 4 || k == 5) { sz m = 0, x; asn1_encode_integer_tlv(t, &m, f.d, n % 20); asn1_encode_octet_string_tlv(t + m, &x, f.d, n % 9); m += x; if (k == 4) asn1_encode_sequence_tl(b, &w, m); else asn1_encode_set_tl(b, &w, m); memcpy(b + w, t, m); w += m; } else { w = n; memcpy(b, f.d, w); if (w) b[0] &= 0x3f; if (w > 1) b[1] &= 0x87; }
    int how = (int)(v / 7 % 4); if (how == 1 && w) w = mix(v + 2) % w; if (how == 2 && w) b[mix(v + 3) % w] ^= 1 << v % 8; if (how == 3) { memset(b + w, 5, 3); w += v / 28 % 3; } return w;
}
OP("ASN.1 decode", 3000, 30000, LIGHT)
{
    using namespace asn1; u8 b[300]; sz n = asn_case(b, v), r; const u8* in = c.in(b, n); int rc; auto view = [&](const u8* p, sz l) { c.num(l); if (l) { c.num(p - in); c.emit(p, l); } };
    { Asn1TLV t; rc = asn1_decode_tlv(&t, &r, in, n); c.num(rc != 0); if (!rc) { c.num(t.tag_class); c.num(t.tag_pc); c.num(t.tag_number); c.num(r); view(t.value, t.length); } } c.step(); { bool q; rc = asn1_decode_boolean_value(&q, &r, in, n); c.num(rc != 0); if (!rc) { c.num(q); c.num(r); } } { const u8* p; sz l, bits; rc = asn1_decode_integer_value(&p, &l, &r, in, n); c.num(rc != 0); if (!rc) { c.num(r); view(p, l); } rc = asn1_decode_bit_string_value(&p, &l, &bits, &r, in, n); c.num(rc != 0); if (!rc && b[0] == 3) { c.num(r); c.num(bits); view(p, l); } rc = asn1_decode_octet_string_value(&p, &l, &r, in, n); c.num(rc != 0); if (!rc) { c.num(r); view(p, l); } rc = asn1_decode_sequence_value(&p, &l, &r, in, n); c.num(rc != 0); if (!rc) { c.num(r); view(p, l); } rc = asn1_decode_set_value(&p, &l, &r, in, n); c.num(rc != 0); if (!rc) { c.num(r); view(p, l); } rc = asn1_decode_null_value(&r, in, n); c.num(rc != 0); if (!rc) c.num(r); }
}
OP("ASN.1 dump", 200, 3000, LIGHT) { u8 b[300]; sz n = asn_case(b, v); c.num(asn1::asn1_dump(c.in(b, n), n) != 0); c.str(asn1::asn1_tag_class_name((asn1::Asn1TagClass)(v & 0xc0))); c.str(asn1::asn1_tag_pc_name((asn1::Asn1TagPC)(v & 0x20))); const char* s = asn1::asn1_tag_number_name((asn1::Asn1TagNumber)(v & 31)); if (s) c.str(s); }
OP("SM2 ASN.1", 400, 4000, LIGHT)
{
    using namespace sm2::internal; u8 x[32], y[32]; val(x, v); val(y, v * 7 + 3); x[0] |= 1; y[0] |= 1; ASN1_SM2Signature s = {c.in(x, 32), c.in(y, 32)}; sz w, r; u8* o = c.out(sm2_signature_asn1_encode_outl(&s)); sm2_signature_asn1_encode(o, &w, &s); c.num(w); c.wrote(o, w); c.step(); u8 e[400]; memcpy(e, o, w); if (v % 3 == 1) e[v / 3 % w] ^= 1 << v % 8; sz n = v % 3 == 2 ? mix(v) % w : w; const u8* in = c.in(e, n); int rc = sm2_signature_asn1_decode(&s, &r, in, n); c.num(rc != 0); if (!rc) { c.num(r); c.emit(s.R, 32); c.emit(s.S, 32); } c.step();
    Buf f(v, 200); ASN1_SM2Cipher k; k.XCoordinate = c.in(x, 32); k.YCoordinate = c.in(y, 32); k.HASH.value = c.in(f.d, 32); k.HASH.length = 32; k.CipherText.value = c.in(f.d + 32, v % 150); k.CipherText.length = v % 150; o = c.out(sm2_cipher_asn1_encode_outl(&k)); sm2_cipher_asn1_encode(o, &w, &k); c.num(w); c.wrote(o, w); memcpy(e, o, w); if (v % 4 == 1) e[v / 4 % w] ^= 1 << v % 8; n = v % 4 == 2 ? mix(v) % w : w; in = c.in(e, n); rc = sm2_cipher_asn1_decode(&k, &r, in, n); c.num(rc != 0); if (!rc) { c.num(r); c.emit(k.XCoordinate, 32); c.emit(k.YCoordinate, 32); c.num(k.HASH.length); c.emit(k.HASH.value, k.HASH.length); c.num(k.CipherText.length); c.emit(k.CipherText.value, k.CipherText.length); } c.step();
    u8 pb[65]; Buf q(v + 5, 65); memcpy(pb, q.d, 65); pb[0] = 4; ASN1_SM2PublicKey pk = {c.in(pb, 65)}; o = c.out(sm2_public_key_asn1_encode_outl(&pk)); sm2_public_key_asn1_encode(o, &w, &pk); c.num(w); c.wrote(o, w); memcpy(e, o, w); n = v % 2 ? mix(v) % w : w; in = c.in(e, n); rc = sm2_public_key_asn1_decode(&pk, &r, in, n); c.num(rc != 0); if (!rc) { c.num(r); c.emit(pk.value, 65); } ASN1_SM2PrivateKey pr = {c.in(x, 32)}; o = c.out(sm2_private_key_asn1_encode_outl(&pr)); sm2_private_key_asn1_encode_outl(o, &w, &pr); c.num(w); c.wrote(o, w); memcpy(e, o, w); in = c.in(e, w); rc = sm2_private_key_asn1_decode(&pr, &r, in, w); c.num(rc != 0); if (!rc) { c.num(r); c.emit(pr.value, 32); }
}
// --- SM2 --------------------------------------------------------------------
typedef sm3::SM3 H;
typedef sm2::SM2PrivateKey<H> K2; typedef sm2::SM2PublicKey<H> P2k;
inline void mk2(Ctx& c, K2& k, long v) { u8 b[32]; val(b, 7 + 9 * v); b[0] = 0x11; k.set_priv(c.in(b, 32)); }
OP("SM2 key import", 60, 400, HEAVY) { K2 k; u8 b[32]; val(b, v); guarded(c, [&] { k.set_priv(c.in(b, 32)); c.step(); u8 *o = c.out(32), *x = c.out(32), *y = c.out(32); k.get_priv(o); k.fetch_pub().get_pub(x, y); c.wrote(o, 32); c.wrote(x, 32); c.wrote(y, 32); P2k p; p.set_pub(c.in(x, 32), c.in(y, 32)); c.str("imported"); c.step(); y[v % 32] ^= 1; p.set_pub(c.in(x, 32), c.in(y, 32)); c.str("accepted"); }); }
OP("SM2 key generation", 12, 100, HEAVY) { Rng r(v, v < 3 ? (int)v * 255 / 2 : -1); K2 k(r); c.step(); u8 *o = c.out(32), *x = c.out(32), *y = c.out(32); k.get_priv(o); k.fetch_pub().get_pub(x, y); c.wrote(o, 32); c.wrote(x, 32); c.wrote(y, 32); }
inline void sm2_sign(Ctx& c, const K2& k, long v) { Rng r(v); sz n = mix(v) % 150, il = v % 3 == 0 ? 0 : mix(v + 1) % 40; const u8 *m = fin(c, v, n), *id = fin(c, v + 1, il); u8* o = c.out(64); if (v % 3 == 0) k.sign(o, m, n, r); else k.sign(o, m, n, r, id, il); c.wrote(o, 64); c.step(); u8 s[64]; memcpy(s, o, 64); for (int bad = 0; bad < 2; bad++) { s[v * 5 % 64] ^= bad << v % 8; const u8* q = c.in(s, 64); c.num(v % 3 == 0 ? k.verify(q, m, n) : k.verify(q, m, n, id, il)); c.step(); } }
OP("SM2 sign, verify", 40, 400, HEAVY) { K2 k; mk2(c, k, v % 5); c.step(); sm2_sign(c, k, v); }
OP("SM2 verify edge", 24, 100, HEAVY) { K2 k; mk2(c, k, v % 3); u8 s[64]; val(s, v); val(s + 32, v * 3 + 1); sz il = v % 4 == 3 ? 8192 : 4; std::vector<u8> id(il, 7); c.num(k.fetch_pub().verify(c.in(s, 64), fin(c, v, 9), 9, c.in(id.data(), il), il)); }
inline void sm2_crypt(Ctx& c, const K2& k, long v)
{
    Rng r(v); sz n = 1 + mix(v) % 90, w; sm2::SM2EcPC pc = (sm2::SM2EcPC)(v % 3); const u8* m = fin(c, v, n); sz cl = P2k::ciphertext_len(m, n, pc); c.num(cl); u8* o = c.out(cl); k.fetch_pub().encrypt(o, &w, m, n, r, pc); c.num(w); c.wrote(o, w); c.step(); u8 e[300]; memcpy(e, o, w);
    for (int bad = 0; bad < 3; bad++) { sz l = w; if (bad == 1) e[v * 7 % w] ^= 1 << v % 8; if (bad == 2) { if (bad == 2 && v % 2) e[v * 7 % w] ^= 1 << v % 8; l = mix(v + 5) % w; } const u8* in = c.in(e, l); guarded(c, [&] { sz pl = 999; u8* p = c.out(l); k.decrypt(p, &pl, in, l); c.num(pl); c.wrote(p, pl); }); c.step(); }
}
OP("SM2 encrypt, decrypt", 40, 400, HEAVY) { K2 k; mk2(c, k, v % 5); c.step(); sm2_crypt(c, k, v); }
OP("SM2 point decode", 300, 3000, LIGHT)
{
    using namespace sm2::internal; u8 b[65]; val(b + 1, v); memset(b + 33, 0, 32); b[0] = (u8)(2 + v % 2); sm2_ec_a a; sz r = 0; int rc = sm2_ec_a_from_bytes(a, &r, c.in(b, 33), 33); c.num(rc != 0); if (rc) return; c.num(r); u8* o = c.out(65); sm2_ec_a_to_bytes_uncompressed(o, a); c.wrote(o, 65); memcpy(b, o, 65); c.step(); o = c.out(33); sm2_ec_a_to_bytes_compressed(o, a); c.wrote(o, 33); o = c.out(65); sm2_ec_a_to_bytes_mix(o, a); c.wrote(o, 65); b[v % 65] ^= v % 4; sz n = v % 5 == 4 ? mix(v) % 66 : 65; rc = sm2_ec_a_from_bytes(a, &r, c.in(b, n), n); c.num(rc != 0);
}
// --- SM9 --------------------------------------------------------------------
typedef sm9::SM9SignMasterPrivateKey<H> M9; typedef sm9::SM9SignMasterPublicKey<H> P9k; typedef sm9::SM9SignPrivateKey<H> K9;
inline void mk9(Ctx& c, M9& m, long v) { u8 b[32]; val(b, 7 + 9 * v); b[0] = 0x11; m.set_priv(c.in(b, 32)); }
inline void out9(Ctx& c, const M9& m) { u8 *o = c.out(32), *x = c.out(64), *y = c.out(64); m.get_priv(o); m.fetch_SignPublicKey().get_pub(x, y); c.wrote(o, 32); c.wrote(x, 64); c.wrote(y, 64); }
OP("SM9 master import", 20, 200, HEAVY) { M9 m; u8 b[32]; val(b, v); guarded(c, [&] { m.set_priv(c.in(b, 32)); c.step(); out9(c, m); }); }
OP("SM9 master generation", 6, 60, HEAVY) { Rng r(v, v < 3 ? (int)v * 255 / 2 : -1); M9 m(r); c.step(); out9(c, m); }
inline void sm9_extract(Ctx& c, const M9& m, K9& k, long v) { Rng r(v); sz il = mix(v) % 40; k = v % 2 ? m.gen_SignPrivateKey(fin(c, v, il), il, r) : m.gen_SignPrivateKey(fin(c, v, il), il, r, (u8)v); c.step(); }
inline void out9(Ctx& c, const K9& k) { u8 *x = c.out(32), *y = c.out(32), *p = c.out(64), *q = c.out(64); k.get_priv(x, y, p, q); c.wrote(x, 32); c.wrote(y, 32); c.wrote(p, 64); c.wrote(q, 64); }
OP("SM9 extract", 8, 80, HEAVY) { M9 m; mk9(c, m, v % 3); c.step(); K9 k; sm9_extract(c, m, k, v); out9(c, k); }
OP("SM9 user import", 8, 80, HEAVY) { M9 m; mk9(c, m, 1); K9 k, k2; sm9_extract(c, m, k, v); u8 x[32], y[32], p[64], q[64]; k.get_priv(x, y, p, q); if (v % 4 == 1) x[3] ^= 1; if (v % 4 == 2) q[9] ^= 4; guarded(c, [&] { k2.set_priv(c.in(x, 32), c.in(y, 32), c.in(p, 64), c.in(q, 64)); out9(c, k2); }); }
inline void sm9_sign(Ctx& c, const K9& k, const P9k& p, long v, bool deep = true)
{
    Rng r(v); sz n = mix(v + 2) % 120, w = 0, il = mix(v) % 40; const u8* m = fin(c, v + 1, n); sm9::SM9EcPC pc = (sm9::SM9EcPC)(v % 3); u8* o = c.out(pc == sm9::SM9EcPC::COMPRESSED ? 65 : 97); k.sign(o, &w, m, n, r, pc); c.num(w); c.wrote(o, w); c.step(); if (!deep) return; u8 s[97]; memcpy(s, o, w); const u8* fin9 = c.in(s, w); const u8* id = fin(c, v, il); int hid = v % 2 ? 1 : (u8)v;
    for (int bad = 0; bad < 3; bad++) { sz l = w; if (bad == 1) s[v * 5 % w] ^= 1 << v % 8; if (bad == 2) l = mix(v + 7) % w; const u8* q = c.in(s, l); c.num(bad % 2 ? p.verify(q, l, m, n, id, il, (u8)hid) : k.verify(q, l, m, n, id, il, (u8)hid)); c.step(); }
    c.num(k.verify(fin9, w, m, n, id, il, (u8)hid)); c.step();
}
OP("SM9 sign, verify", 12, 120, VHEAVY) { M9 m; mk9(c, m, v % 3); c.step(); K9 k; sm9_extract(c, m, k, v); sm9_sign(c, k, m.fetch_SignPublicKey(), v); }
OP("SM9 public import", 6, 60, HEAVY) { M9 m; mk9(c, m, v % 3); u8 x[64], y[64]; m.fetch_SignPublicKey().get_pub(x, y); if (v % 3 == 2) y[11] ^= 2; P9k p; guarded(c, [&] { p.set_pub(c.in(x, 64), c.in(y, 64)); c.step(); u8 *a = c.out(64), *b = c.out(64); p.get_pub(a, b); c.wrote(a, 64); c.wrote(b, 64); }); }
OP("SM9 point decode", 300, 3000, LIGHT)
{
    using namespace sm9::internal; u8 b[65]; val(b + 1, v); memset(b + 33, 0, 32); b[0] = (u8)(2 + v % 2); sm9_ec_a a; sz r = 0; int rc = sm9_ec_a_from_bytes(a, &r, c.in(b, 33), 33); c.num(rc != 0); if (rc) return; c.num(r); u8* o = c.out(65); sm9_ec_a_to_bytes_uncompressed(o, a); c.wrote(o, 65); memcpy(b, o, 65); c.step(); o = c.out(33); sm9_ec_a_to_bytes_compressed(o, a); c.wrote(o, 33); o = c.out(65); sm9_ec_a_to_bytes_mix(o, a); c.wrote(o, 65); b[v % 65] ^= v % 4; sz n = v % 5 == 4 ? mix(v) % 66 : 65; rc = sm9_ec_a_from_bytes(a, &r, c.in(b, n), n); c.num(rc != 0);
}
OP("SM9 G2 point decode", 40, 300, LIGHT)
{
    using namespace sm9::internal; u8 s[32]; val(s, v); sm9_ec2_j j; sm9_ec2_a a; sm9_ec2_j_mul_g(j, c.in(s, 32)); if (sm9_ec2_j_is_inf(j)) return; sm9_ec2_j_to_a(a, j); u8 b[129]; u8* o = c.out(129); sm9_ec2_a_to_bytes_uncompressed(o, a); c.wrote(o, 129); memcpy(b, o, 129); c.step(); b[v * 3 % 129] ^= v % 4; sz n = v % 5 == 4 ? mix(v) % 130 : 129, r; int rc = sm9_ec2_a_from_bytes(a, &r, c.in(b, n), n); c.num(rc != 0); o = c.out(129); sm9_ec2_a_to_bytes_mix(o, a); c.wrote(o, 129);
}
OP("SM9 pairing", 6, 60, HEAVY) { using namespace sm9::internal; u8 s[32], t[32]; val(s, 7 + 9 * v); val(t, 8 + 9 * v); s[0] = t[0] = 0x21; sm9_ec_t P; sm9_ec2_t Q; sm9_ec_j_mul_g(P.j, c.in(s, 32)); sm9_ec_j_to_a(P.a, P.j); sm9_ec2_j_mul_g(Q.j, c.in(t, 32)); sm9_ec2_j_to_a(Q.a, Q.j); c.step(); sm9_fp12_t f; sm9_pairing(f, P.a, Q.a); u8* o = c.out(384); sm9_fp12_to_bytes(o, f); c.wrote(o, 384); c.step(); sm9_pairing_P1_Q(f, Q.a); o = c.out(384); sm9_fp12_to_bytes(o, f); c.wrote(o, 384); c.step(); sm9_pairing_P_P2(f, P.a); o = c.out(384); sm9_fp12_to_bytes(o, f); c.wrote(o, 384); }
}
