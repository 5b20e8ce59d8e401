// C03: GCM encryption (and the decryptor's keystream) against SP 800-38D.
#include "gcm_if.h"
#include <gmlib/aes/aes.h>
#include <gmlib/sm4/sm4.h>
#include "longmode.h"
#include "longgcm.h"
using namespace mc; using namespace toy;
static std::vector<GKind> K;
struct Arena { Tight in{1 << 14}, out{1 << 14}, iv{1 << 12}, aad{1 << 12}, tag{64}; };
static Arena& ar() { static Arena* a = new Arena; return *a; }

// one message in the given chunks; encrypts, checks ciphertext, lengths and tag; then decrypts the same way
static void run(const GKind& k, const u8* key, const Bytes& iv, const Bytes& aad, const Bytes& pt, const Bytes& ct, const Bytes& tg, const std::vector<size_t>& ch, bool inplace, bool fdata, bool also_dec)
{
    for (int dir = 0; dir < (also_dec ? 2 : 1); dir++) {
        const Bytes &src = dir ? ct : pt, &dst = dir ? pt : ct; size_t L = src.size();
        Arena& a = ar(); u8 *bi, *bo;
        if (inplace) bi = bo = a.out.set(src); else bi = a.in.set(src), bo = a.out.set(L);
        std::unique_ptr<IGcm> t(dir ? k.dec() : k.enc());
        t->init(key, a.iv.set(iv), iv.size(), a.aad.set(aad), aad.size());
        if (dir) t->set(a.tag.set(tg));
        size_t c = 0, p = 0;
        for (size_t i = 0; i <= ch.size(); i++) {
            if (i == ch.size() && fdata) break;
            bool last = i == ch.size() || (fdata && i + 1 == ch.size());
            size_t n = i < ch.size() ? ch[i] : 0, ol = 9999, can = last ? c - p + n : (c - p + n) / 16 * 16;
            try {
                if (!last) t->update(bo + p, &ol, bi + c, n); else if (i < ch.size()) t->fin(bo + p, &ol, bi + c, n); else t->fin0(bo + p, &ol);
            } catch (std::runtime_error& e) { fail("throw", "%s threw: %s", dir ? "decrypt" : "encrypt", e.what()); }
            trans();
            if (ol != can) fail("outl", "%s: chunk %zu: reported length %zu, expected %zu", dir ? "decrypt" : "encrypt", i, ol, can);
            c += n; p += can; state(hashv(k.tag, dir, c, p, iv.size(), aad.size(), last));
        }
        trace();
        expect_eq("bytes", bo, dst.data(), L, dir ? "plaintext" : "ciphertext");
        if (!a.out.ok()) fail("canary", "bytes in front of the output were overwritten");
        if (!dir) { u8* tp = a.tag.set(16); t->get(tp); expect_eq("tag", tp, tg.data(), 16, "tag"); if (!a.tag.ok()) fail("canary", "tag"); }
    }
}
struct Ctx {
    const GKind& k; u8 key[64]; Perm p;
    Ctx(const GKind& k_, u64 s) : k(k_) { fill(key, 64, s); p = k.perm(key); }
    void msg(const Bytes& iv, const Bytes& aad, const Bytes& pt, const std::vector<std::vector<size_t>>& chs, int variants)
    {
        Bytes j = refgcm::j0_of(p, iv), ct = refgcm::gctr(p, j, pt), tg = refgcm::tag(p, j, aad, ct.data(), ct.size());
        for (auto& ch : chs) {
            at("iv_len=%ld aad_len=%ld len=%ld chunks=%ld: %ld,%ld", iv.size(), aad.size(), pt.size(), ch.size(), ch.size() ? ch[0] : 0, ch.size() > 1 ? ch[1] : 0);
            for (int v = 0; v < variants; v++) run(k, key, iv, aad, pt, ct, tg, ch, v & 1, v & 2, true);
        }
    }
};
SETUP([] {
    // the reference reproduces the SP 800-38D / McGrew-Viega AES test case 4
    Perm p = perm_of<aes::AES128>(unhex("feffe9928665731c6d6a8f9467308308").data());
    Bytes iv = unhex("cafebabefacedbaddecaf888"), a = unhex("feedfacedeadbeeffeedfacedeadbeefabaddad2"),
          m = unhex("d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525b16aedf5aa0de657ba637b39");
    Bytes j = refgcm::j0_of(p, iv), c = refgcm::gctr(p, j, m), t = refgcm::tag(p, j, a, c.data(), c.size());
    if (hex(t) != "5bc94fbc3221a5db94fae95ae7121a47" || hex(c).substr(0, 16) != "42831ec221777424") { // AES itself may be what is broken: C09 decides that
        fprintf(stderr, "note: GCM test case 4 not reproduced with the library's AES\n"); }
    Bytes j2 = unhex("00112233445566778899aabbfffffffe"); if (refgcm::j0_of(p, refgcm::iv_for_j0(p, j2)) != j2) { fprintf(stderr, "reference IV solver broken\n"); exit(3); }
    K = {GKIND(Toy<16, 4>), GKIND(Toy<16, 1>), GKIND(Toy<16, 8>), GKIND(Toy<16, 3>), GKIND(aes::AES128), GKIND(aes::AES256), GKIND(sm4::SM4), GKIND(aes::AES192)};
})
#define PERK(scname, ...) SCENARIO(scname, [] { return (long)K.size(); }, [](long i) { const GKind& k = K[i]; ctx("GCM %s", k.name); __VA_ARGS__ })
PERK("shapes", // all IV lengths x AAD lengths x a few message lengths, and all AAD x message lengths
    Ctx c(k, 1); size_t M = thorough() ? 100 : 50;
    for (size_t il = 1; il <= M + 20; il++) for (size_t al = 0; al <= 34; al += (il <= 34 || thorough() ? 1 : 5)) for (size_t l : {(size_t)0, (size_t)17}) c.msg(filled(il, il), filled(al, 3), filled(l, 4), {{l}}, 1);
    for (size_t al = 0; al <= M; al++) for (size_t l = 0; l <= M; l++) c.msg(filled(12, 9), filled(al, al), filled(l, 4), {{l}}, 2);
    for (size_t il : {1, 11, 12, 13, 16, 127, 128, 129, 255, 256, 257, 1024, 2049}) c.msg(filled(il, il), filled(il, 3), filled(33, 4), {{33}}, 4);
    sample("GCM %s: IV lengths 1..%zu x AAD lengths 0..34; AAD 0..%zu x message 0..%zu", k.name, M + 20, M, M);
)
PERK("chunks", // every 3-chunk split of a message longer than two parallel widths, separate and in place
    Ctx c(k, 2); size_t Lmax = 16 * k.pn * 2 + 16 + 5;
    auto near = [&](size_t x) { size_t m = x % 16; return m <= 1 || m == 15; };
    for (size_t L : {Lmax, (size_t)(16 * k.pn * 2), (size_t)37}) {
        std::vector<std::vector<size_t>> chs;
        for (size_t a = 0; a <= L; a++) for (size_t b = 0; a + b <= L; b++) { if (L > 40 && !thorough() && !(near(a) && near(a + b))) continue; chs.push_back({a, b, L - a - b}); }
        for (size_t a = 0; a <= L; a++) chs.push_back({a, L - a});
        for (size_t q = 1; q <= 40; q++) { std::vector<size_t> v; for (size_t x = 0; x < L; x += q) v.push_back(std::min(q, L - x)); chs.push_back(v); }
        c.msg(filled(12, 5), filled(20, 6), filled(L, 7), chs, 4);
    }
    for (size_t L = 0; L <= Lmax; L++) c.msg(filled(12, 5), filled(7, 6), filled(L, 7), {{L}}, 4);
    sample("GCM %s: 3-chunk splits of %zu bytes", k.name, Lmax);
)
PERK("counter_wrap", // initial counters at every distance from the 32-bit wrap
    Ctx c(k, 3); size_t nb = 2 * k.pn + 3;
    for (int pat = 0; pat < 4; pat++)
        for (size_t d = 0; d <= nb + 1; d++) {
            Bytes j(16, pat == 0 ? 0xFF : pat == 1 ? 0x00 : 0x7F); if (pat == 3) j = filled(16, 8);
            u32 low = 0xFFFFFFFFu - (u32)d; for (int i = 0; i < 4; i++) j[12 + i] = (u8)(low >> (24 - 8 * i));
            Bytes iv = refgcm::iv_for_j0(c.p, j); std::vector<std::vector<size_t>> chs; size_t L = nb * 16 + 3;
            for (size_t q = 0; q <= nb; q++) chs.push_back({q * 16, L - q * 16});
            std::vector<size_t> v; for (size_t x = 0; x < L; x += 16) v.push_back(std::min((size_t)16, L - x)); chs.push_back(v);
            c.msg(iv, filled(3, 1), filled(L, 7), chs, 2);
        }
    // carries inside the low 32 bits
    for (int sh = 8; sh <= 24; sh += 8) for (size_t d = 0; d <= nb; d++) { Bytes j = filled(16, 8); u32 low = (0x5Au << 24 | ((1u << sh) - 1)) - (u32)d; if (sh == 24) low = 0x00FFFFFFu - (u32)d; for (int i = 0; i < 4; i++) j[12 + i] = (u8)(low >> (24 - 8 * i)); c.msg(refgcm::iv_for_j0(c.p, j), {}, filled(nb * 16, 7), {{nb * 16}}, 1); }
    sample("GCM %s: 16-byte IVs solved so that the initial counter is FFFFFFFF-d, d=0..%zu, 4 prefixes", k.name, nb + 1);
)
// lengths that need more than 32 bits: a cipher that maps every block to the same constant
// makes the ciphertext of zeros a constant stream whose GHASH has a closed form.
using namespace lg;
typedef Const_<16> ConstCipher;
struct Big { u64 iv, aad, pt; bool dec; };
static std::vector<Big> big()
{
    u64 G = 1ull << 29; std::vector<Big> v = {{12, 5, G + 16 * 3 + 5, false}, {12, G + 3, 40, false}, {G + 1, 0, 16, false}, {12, 0, G + 16, true}};
    if (thorough() || sizeof(ghash::GHash) < 1000) { v.push_back({12, 0, (1ull << 32) + 21, false}); v.push_back({12, (1ull << 32) + 3, 21, false}); v.push_back({(1ull << 32) + 17, 3, 21, false}); v.push_back({12, G + 7, (1ull << 32) + 21, true}); }
    return v;
}
SCENARIO("long", [] { return (long)big().size(); }, [](long i) {
    Big b = big()[i]; at("iv_len=%ld aad_len=%ld len=%ld decrypt=%ld", b.iv, b.aad, b.pt, b.dec); ctx("GCM over a constant permutation");
    Bytes key = filled(16, 12345); Blk h = refgcm::load(key.data());
    u8 iv12[12] = {1, 2, 3}; u8* iv = b.iv == 12 ? iv12 : zeros(b.iv); u8* aad = zeros(b.aad ? b.aad : 1);
    size_t CH = (1 << 20) * 8; Bytes in(CH, 0), out(CH); if (b.dec) for (size_t k = 0; k < CH; k++) in[k] = key[k % 16];
    const Bytes& wantout = b.dec ? Bytes(CH, 0) : [&] { Bytes w(CH); for (size_t k = 0; k < CH; k++) w[k] = key[k % 16]; return w; }();
    // ciphertext = key repeated; GHASH over zero AAD is 0, so Y after ct = geo over full blocks, then partial, then lengths
    Blk y = geo(h, h, b.pt / 16);
    if (b.pt % 16) { u8 t[16] = {0}; memcpy(t, key.data(), b.pt % 16); Blk x = refgcm::load(t); y.hi ^= x.hi; y.lo ^= x.lo; y = mul(y, h); }
    y.hi ^= b.aad * 8; y.lo ^= b.pt * 8; y = mul(y, h); u8 tg[16]; refgcm::store(tg, y); for (int k = 0; k < 16; k++) tg[k] ^= key[k];
    std::unique_ptr<IGcm> t(b.dec ? (IGcm*)new GcmImpl<ConstCipher, false>() : (IGcm*)new GcmImpl<ConstCipher, true>());
    t->init(key.data(), iv, b.iv, aad, b.aad);
    if (b.dec) t->set(tg);
    u64 left = b.pt;
    while (left > CH) { size_t ol; t->update(out.data(), &ol, in.data(), CH); tick(); trans(); if (ol != CH) fail("outl", "long"); expect_eq("bytes", out.data(), wantout.data(), CH, "long output"); left -= CH; }
    size_t ol; try { t->fin(out.data(), &ol, in.data(), left); } catch (std::runtime_error& e) { fail("throw", "final threw: %s", e.what()); } trans(); trace();
    expect_eq("bytes", out.data(), wantout.data(), left, "long output tail");
    if (!b.dec) { u8 got[16]; t->get(got); expect_eq("tag", got, tg, 16, "tag"); }
    state(hashv(b.iv, b.aad, b.pt, b.dec)); sample("IV %llu bytes, AAD %llu bytes, message %llu bytes", (unsigned long long)b.iv, (unsigned long long)b.aad, (unsigned long long)b.pt);
})
// the same through the 32-bit counter: for an IV of 2^29+1 zero bytes the initial counter itself must carry the length
SCENARIO("long_iv_counter", 1, [](long) {
    u64 n = (1ull << 29) + 1; at("iv_len=%ld", n); Perm p = perm_of<Toy<16, 4>>(filled(4, 77).data()); u8* iv = zeros(n);
    Bytes H(16, 0); p.E(H.data()); Blk h = refgcm::load(H.data()), y; y.lo = n * 8; y = mul(y, h); Bytes j0(16); refgcm::store(j0.data(), y);
    Bytes pt = filled(40, 1), ct = refgcm::gctr(p, j0, pt), tg = refgcm::tag(p, j0, {}, ct.data(), ct.size());
    GcmImpl<Toy<16, 4>, true> e; Bytes k = filled(4, 77); e.init(k.data(), iv, n, nullptr, 0); u8 o[64], t[16]; size_t ol; e.fin(o, &ol, pt.data(), 40); e.get(t); trans(); trace();
    expect_eq("bytes", o, ct.data(), 40, "ciphertext"); expect_eq("tag", t, tg.data(), 16, "tag");
})
// one call of n octets after a short one: over a constant permutation the tag has a closed form, over the quick permutation
// the key stream can be entered anywhere
static const u8* lin() { static Repeat* r = new Repeat(1 << 20, 4100, 5); return r->p; }
template <size_t PN> static void onecall(u64 pre, u64 n, bool dec, bool fin)
{
    Bytes key = filled(16, 900 + n); u64 total = pre + n; Blk y = tag_of(key.data(), 7, total); u8 tg[16]; refgcm::store(tg, y); u8 iv[12] = {9}; Bytes aad(7, 0); const u8* in = dec ? keys(key) : nul(); u8* o = lout() + 16 * 3; size_t cons = 0, prod = 0;
    ctx("GCM over a constant permutation, width %zu, one call", PN); at("%ld octets after %ld, decrypt %ld final %ld", n, pre, dec, fin); tick(); std::unique_ptr<IGcm> t(dec ? (IGcm*)new GcmImpl<Const_<PN>, false>() : (IGcm*)new GcmImpl<Const_<PN>, true>()); t->init(key.data(), iv, 12, aad.data(), 7); if (dec) t->set(tg);
    auto call = [&](u64 m, bool f) { size_t ol = 5, want = f ? cons + m - prod : (cons + m) / 16 * 16 - prod; try { if (f) t->fin(o + prod, &ol, in + cons, m); else t->update(o + prod, &ol, in + cons, m); } catch (std::runtime_error& e) { fail("throw", "%s", e.what()); } trans(); tick(); if (ol != want) fail("outl", "reported %zu octets, expected %zu", ol, want); cons += m; prod += ol; };
    if (pre) call(pre, false); call(n, fin); if (!fin) call(0, true); trace(); if (!dec) { u8 got[16]; t->get(got); expect_eq("tag", got, tg, 16, "tag"); }
    size_t len = std::min<u64>(total, 1 << 20); for (size_t i = 0; i < len; i++) { size_t q = total - len + i; u8 want = dec ? 0 : key[q % 16], got = lout()[(q + 48) % (1 << 20)]; if (got != want) fail("bytes", "output octet %zu of %lu is %02x, expected %02x", q, (unsigned long)total, got, want); }
    state(hashv(0x4c43, PN, pre, n, dec, fin));
}
template <size_t PN> static void onestream(u64 pre, u64 n, bool dec)
{
    typedef lm::Quick<16, PN> Q; Bytes key = filled(8, 901 + n); u64 k; memcpy(&k, key.data(), 8); u8 iv[12]; fill(iv, 12, n); ctx("GCM over a quick permutation, width %zu, one call", PN); at("%ld octets after %ld, decrypt %ld", n, pre, dec); tick(); u64 total = pre + n; u8* o = lout() + 5; const u8* in = lin(); size_t ol, prod = 0;
    if (dec) { GcmImpl<Q, false> d; d.init(key.data(), iv, 12, nullptr, 0); if (pre) { d.update(o, &ol, in, pre); prod += ol; } d.update(o + prod, &ol, in + pre, n); prod += ol; total = prod; } else { GcmImpl<Q, true> e; e.init(key.data(), iv, 12, nullptr, 0); if (pre) { e.update(o, &ol, in, pre); prod += ol; } e.fin(o + prod, &ol, in + pre, n); prod += ol; if (prod != total) fail("outl", "reported %zu octets, expected %lu", prod, (unsigned long)total); } trans(3); trace(); tick();
    size_t len = std::min<u64>(total, 1 << 20); for (size_t q = (total - len) / 16 * 16; q < total; q += 16) { u8 c[16]; memcpy(c, iv, 12); u32 ctr = 2 + (u32)(q / 16); for (int i = 0; i < 4; i++) c[12 + i] = (u8)(ctr >> (24 - 8 * i)); Q::e(k, c); for (size_t i = 0; i < 16 && q + i < total; i++) { if (q + i < total - len) continue; u8 want = c[i] ^ in[q + i], got = lout()[(q + i + 5) % (1 << 20)]; if (got != want) fail("bytes", "output octet %zu of %lu is %02x, expected %02x", q + i, (unsigned long)total, got, want); } }
    state(hashv(0x4c44, PN, pre, n, dec));
}
SCENARIO("long calls", 25 * 2, [](long it) {
    int k = 32 - (int)(it / 2); bool slow = sizeof(ghash::GHash) >= 1000, dec = it % 2, T = thorough(); u64 n = 1ull << k; if (slow && k > (T ? 32 : 29)) return;
    struct W { u64 pre, n; bool fin; } v[] = {{0, n + 53, true}, {16, n - 16, false}, {5, n + 16 * 16 + 11, false}, {0, n, true}, {0, n - 1, true}, {21, n, true}}; int m = k >= 29 && !T ? slow ? 1 : 2 : 6;
    for (int i = 0; i < m; i++) { onecall<16>(v[i].pre, v[i].n, dec, v[i].fin); if (k < 29 || T) onecall<1>(v[i].pre, v[i].n, dec, v[i].fin), onecall<5>(v[i].pre, v[i].n, dec, v[i].fin); if (k < 29 || T || i == 0) onestream<16>(v[i].pre, v[i].n, dec); if (k < 29 || T) onestream<1>(v[i].pre, v[i].n, dec); }
})
// one object, and message parameters that differ from those of the message before in one octet or in a length
PERK("reuse",
    Ctx c(k, 5); Bytes pt = filled(16 * (k.pn > 8 ? 2 : k.pn + 1) + 5, 7), iv0 = filled(20, 31), ad0 = filled(37, 32); struct V { Bytes iv, ad, j, ct, tg; }; std::vector<V> v; auto put = [&](const Bytes& iv, const Bytes& ad) { V x{iv, ad, refgcm::j0_of(c.p, iv), {}, {}}; x.ct = refgcm::gctr(c.p, x.j, pt); x.tg = refgcm::tag(c.p, x.j, ad, x.ct.data(), x.ct.size()); v.push_back(x); };
    for (size_t bl : {(size_t)12, (size_t)20}) { Bytes iv(iv0.begin(), iv0.begin() + bl); put(iv, ad0); for (size_t i = 0; i < bl; i++) for (int x : {1, 0x80}) { Bytes y = iv; y[i] ^= x; put(y, ad0); } for (size_t i = 0; i < ad0.size(); i++) for (int x : {1, 0x80}) { Bytes y = ad0; y[i] ^= x; put(iv, y); } for (size_t l = 0; l < ad0.size(); l += bl == 12 ? 1 : 4) put(iv, Bytes(ad0.begin(), ad0.begin() + l)); for (size_t l = 1; l < 20; l++) { Bytes y = ad0; y.resize(37 + l, 0); put(iv, y); } }
    for (size_t l = 1; l < 20; l++) put(Bytes(iv0.begin(), iv0.begin() + l), ad0); for (size_t l = 1; l < 5; l++) { Bytes y(iv0.begin(), iv0.begin() + 12); y.resize(12 + l, 0); put(y, ad0); } { Bytes iv(iv0.begin(), iv0.begin() + 12); put(ad0, iv); put(iv, iv); }
    std::unique_ptr<IGcm> e(k.enc()), d(k.dec()); auto one = [&](IGcm& o, bool dec, const V& x) { Bytes out(pt.size() + 16, 0xEE); const Bytes& src = dec ? x.ct : pt; size_t a = 0, b = 0; o.init(c.key, x.iv.data(), x.iv.size(), x.ad.data(), x.ad.size()); if (dec) o.set(x.tg.data()); try { o.update(out.data(), &a, src.data(), 21); o.fin(out.data() + a, &b, src.data() + 21, src.size() - 21); } catch (std::runtime_error& er) { fail("throw", "%s", er.what()); } trans(3); if (a + b != pt.size()) fail("outl", "total output length"); expect_eq("bytes", out.data(), dec ? pt.data() : x.ct.data(), pt.size(), dec ? "plaintext" : "ciphertext"); if (!dec) { u8 t[16]; o.get(t); expect_eq("tag", t, x.tg.data(), 16, "tag"); } trace(); };
    for (size_t i = 0; i < v.size(); i++) for (size_t b : {(size_t)0, i ? i - 1 : 0, v.size() - 1}) { at("parameters %ld after %ld", i, b); tick(); for (int dec = 0; dec < 2; dec++) { IGcm& o = dec ? *d : *e; one(o, dec, v[b]); one(o, dec, v[i]); } state(hashv(0x52, k.tag, i, b)); }
    sample("GCM %s: %zu pairs of IV and additional data on one object", k.name, v.size());
)
// more than 2^16 calls in one message, and more than 2^16 messages on one object
PERK("many calls",
    Ctx c(k, 6); const size_t N = thorough() ? 140000 : 66000; std::vector<std::vector<size_t>> pats = {{1}, {0, 1, 0}, {16, 0}, {17, 15, 0, 0, 2}, {0}};
    for (auto& p : pats) {
        size_t L = 3; for (size_t j = 0; j < N; j++) L += p[j % p.size()]; at("%ld calls cycling over %ld lengths, the first %ld", N, p.size(), p[0]); tick(); Bytes pt = filled(L, 8), iv = filled(12, 9), ad = filled(20, 10), j0 = refgcm::j0_of(c.p, iv), ct = refgcm::gctr(c.p, j0, pt), tg = refgcm::tag(c.p, j0, ad, ct.data(), L); tick();
        for (int dec = 0; dec < 2; dec++) {
            std::unique_ptr<IGcm> t(dec ? k.dec() : k.enc()); Bytes b = dec ? ct : pt; size_t cons = 0, prod = 0; t->init(c.key, iv.data(), 12, ad.data(), 20); if (dec) t->set(tg.data());
            try { for (size_t j = 0; j <= N; j++) { size_t n = j < N ? p[j % p.size()] : 3, ol = 77, want = (cons + n) / 16 * 16 - prod; if (j == N) want = cons + n - prod; if (j == N) t->fin(&b[prod], &ol, &b[cons], n); else t->update(b.data() + prod, &ol, b.data() + cons, n); trans(); if (ol != want) fail("many outl", "call %zu of %zu octets: reported %zu, expected %zu", j, n, ol, want); cons += n; prod += ol; } } catch (std::runtime_error& e) { fail("throw", "%s threw: %s", dec ? "decrypt" : "encrypt", e.what()); }
            trace(); tick(); expect_eq("bytes", b.data(), dec ? pt.data() : ct.data(), L, dec ? "plaintext" : "ciphertext"); if (!dec) { u8 x[16]; t->get(x); expect_eq("tag", x, tg.data(), 16, "tag"); } state(hashv(0x6d63, k.tag, p.size(), p[0], dec));
        }
    }
)
PERK("many messages",
    Ctx c(k, 5); const int N = thorough() ? 140000 : 66000; struct V { Bytes iv, ad, pt, ct, tg; }; std::vector<V> v; for (int q = 0; q < 6; q++) { V x; x.iv = filled(q % 2 ? 12 : 5 + q, 40 + q); x.ad = filled(q * 9 % 20, 50 + q); x.pt = filled(1 + q * 11, 60 + q); Bytes j = refgcm::j0_of(c.p, x.iv); x.ct = refgcm::gctr(c.p, j, x.pt); x.tg = refgcm::tag(c.p, j, x.ad, x.ct.data(), x.ct.size()); v.push_back(x); }
    for (int dec = 0; dec < 2; dec++) for (int pat = 0; pat < 2; pat++) { std::unique_ptr<IGcm> o(dec ? k.dec() : k.enc()); for (int m = 0; m < N; m++) {
        const V& x = v[pat ? m % 6 : 3]; const Bytes& src = dec ? x.ct : x.pt; if (m % 500 == 0) { at("message %ld on one object, pattern %ld, decrypt %ld", m, pat, dec); tick(); } u8 out[128]; size_t a = 0, b = 0, h = src.size() / 2; if (pat && m % 5 == 2) o->construct(c.key, x.iv.data(), x.iv.size(), x.ad.data(), x.ad.size()); else o->init(c.key, x.iv.data(), x.iv.size(), x.ad.data(), x.ad.size()); if (dec) o->set(x.tg.data());
        try { o->update(out, &a, src.data(), h); if (pat && m % 4 == 1) continue; o->fin(out + a, &b, src.data() + h, src.size() - h); } catch (std::runtime_error& er) { fail("throw", "message %d on one object: %s", m, er.what()); } trans(3); trace();
        if (a + b != src.size()) fail("outl", "message %d on one object: total output length", m); if (memcmp(out, dec ? x.pt.data() : x.ct.data(), a + b)) fail("bytes", "message %d on one object: wrong %s", m, dec ? "plaintext" : "ciphertext"); if (!dec) { u8 t[16]; o->get(t); if (memcmp(t, x.tg.data(), 16)) fail("tag", "message %d on one object: wrong tag", m); } } state(hashv(0x4d4d, k.tag, dec, pat)); }
)
MC_MAIN
