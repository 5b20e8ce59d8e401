// C21: ASN.1 encodings of SM2 keys, signatures and ciphertexts.
#include "asn1ref.h"
#include <sys/mman.h>
#include <gmlib/sm2/internal/sm2_asn1.h>
using namespace ar; namespace I = sm2::internal;
enum Kind { PRIV, PUB, SIG, CIPHER };
static const char* KN[] = {"private key", "public key", "signature", "ciphertext"};
struct Obj { Bytes a, b, c, d; };        // a: d / point / R / X, b: S / Y, c: HASH, d: CipherText
static Bytes der(int k, const Obj& o)
{
    if (k == PRIV) return tlv_of(2, content_int(o.a)); if (k == PUB) { Bytes c{0}; app(c, o.a); return tlv_of(3, c); }
    Bytes in = tlv_of(2, content_int(o.a)); app(in, tlv_of(2, content_int(o.b))); if (k == CIPHER) app(in, tlv_of(4, o.c)), app(in, tlv_of(4, o.d)); return tlv_of(0x30, in);
}
struct Comp { size_t off, len; bool isint; };
// reference decoding: verdict, components, bytes used, and whether an integer has fewer than 32 content bytes
static int ref(int k, const u8* in, size_t n, std::vector<Comp>& c, size_t& used, bool& shrt)
{
    c.clear(); used = 0; shrt = false; int verdict = YES;
    auto take = [&](int tag, const u8* p, size_t left, size_t& eat) {
        Val v = typed(tag, p, left); if (v.verdict == NO) return verdict = NO;
        if (v.verdict == FREE) { Tlv t; tlv(t, p, left); eat = t.hdr + t.len; if (verdict == YES) verdict = FREE; c.push_back({(size_t)(p - in) + t.hdr, t.len, tag == 2}); return verdict; }
        eat = v.used; c.push_back({(size_t)(p - in) + v.off, v.len, tag == 2});
        if (tag == 2) { if (v.len > 32) return verdict = NO; if (v.len < 32) shrt = true; }
        if (tag == 3) { if (v.len != 65 || v.bits != 520) return verdict = NO; if (p[v.off] != 4 && verdict == YES) verdict = FREE; }
        return verdict; };
    size_t e; if (k == PRIV) { take(2, in, n, used); return verdict; } if (k == PUB) { take(3, in, n, used); return verdict; }
    Val s = typed(16, in, n); if (s.verdict == NO) return NO; used = s.used; const u8* p = in + s.off; size_t left = s.len;
    for (int tag : k == SIG ? std::vector<int>{2, 2} : std::vector<int>{2, 2, 4, 4}) { if (take(tag, p, left, e) == NO) return NO; p += e; left -= e; }
    if (left && verdict == YES) verdict = FREE;        // more elements than the structure has
    return verdict;
}
static const u8* const BAD = (const u8*)0x5a5a5a5a5a5a5a5aull;
static void judge(int k, const u8* in, size_t n)
{
    std::vector<Comp> c; size_t used, rd = 77777; bool shrt; int v = ref(k, in, n, c, used, shrt), e; mc::eval(); const u8* p[4] = {BAD, BAD, BAD, BAD}; size_t l[4] = {32, 32, 7777, 7777}; int np = k == CIPHER ? 4 : k == SIG ? 2 : 1;
    if (k == PRIV) { I::ASN1_SM2PrivateKey x{BAD}; e = I::sm2_private_key_asn1_decode(&x, &rd, in, n); p[0] = x.value; }
    else if (k == PUB) { I::ASN1_SM2PublicKey x{BAD}; e = I::sm2_public_key_asn1_decode(&x, &rd, in, n); p[0] = x.value; l[0] = 65; }
    else if (k == SIG) { I::ASN1_SM2Signature x{BAD, BAD}; e = I::sm2_signature_asn1_decode(&x, &rd, in, n); p[0] = x.R; p[1] = x.S; }
    else { I::ASN1_SM2Cipher x; memset(&x, 0x5a, sizeof x); e = I::sm2_cipher_asn1_decode(&x, &rd, in, n); p[0] = x.XCoordinate; p[1] = x.YCoordinate; p[2] = x.HASH.value; l[2] = x.HASH.length; p[3] = x.CipherText.value; l[3] = x.CipherText.length; }
    auto show = [&] { return n <= 160 ? mc::hex(in, n) : mc::hex(in, 100) + "..."; };
    if (v == NO) { if (!e) mc::fail("accepted", "%s accepted as %s", show().c_str(), KN[k]); return; }
    if (v == YES && e) { if (shrt) { mc::fail("known:short-int", "%s with a component below 2^248 is refused: %s", KN[k], show().c_str()); return; } mc::fail("refused", "%s refused as %s", show().c_str(), KN[k]); }
    if (e) return;
    if (rd != used) mc::fail("read", "%s: %zu bytes read, expected %zu", KN[k], rd, used);
    if (v == FREE) { for (int i = 0; i < np; i++) if (p[i] < in || l[i] > n || p[i] + l[i] > in + n) mc::fail("inside", "%s: component %d of %s lies outside the input", KN[k], i, show().c_str()); return; }
    for (int i = 0; i < np; i++) {
        if (c[i].isint) { u8 w[32] = {0}; memcpy(w + 32 - c[i].len, in + c[i].off, c[i].len); if (memcmp(p[i], w, 32)) mc::fail("value", "%s: component %d of %s", KN[k], i, show().c_str()); }
        else if (p[i] != in + c[i].off || l[i] != c[i].len) mc::fail("value", "%s: component %d of %s: %zu bytes at %ld", KN[k], i, show().c_str(), l[i], (long)(p[i] - in));
    }
}
struct Bench {
    mc::Guard out, ia, ib, ic, id; explicit Bench(size_t cap) : out(cap + 400), ia(128), ib(128), ic(cap + 64), id(cap + 64) {}
    static const u8* put(mc::Guard& g, const Bytes& b) { u8* p = g.tail(b.size()); if (b.size()) memcpy(p, b.data(), b.size()); return p; }
    void dec(int k, const Bytes& b) { u8* p = out.tail(b.size()); if (b.size()) memcpy(p, b.data(), b.size()); mc::state(mc::hash(b.data(), b.size(), k)); judge(k, p, b.size()); }
    void encode(int k, const Obj& o)
    {
        Bytes want = der(k, o); size_t an = 0, ol = 7777, mx = 0; u8* p = out.tail(want.size()); memset(p - 16, 0xC7, 16); memset(p, 0xE1, want.size()); const u8 *a = put(ia, o.a), *b = put(ib, o.b), *c = put(ic, o.c), *d = put(id, o.d);
        if (k == PRIV) { I::ASN1_SM2PrivateKey x{a}; an = I::sm2_private_key_asn1_encode_outl(&x); mx = I::SM2_PRIVATE_KEY_ASN1_ENCODE_MAX_OUTL(); if (an == want.size()) I::sm2_private_key_asn1_encode_outl(p, &ol, &x); }
        else if (k == PUB) { I::ASN1_SM2PublicKey x{a}; an = I::sm2_public_key_asn1_encode_outl(&x); mx = I::SM2_PUBLIC_KEY_ASN1_ENCODE_MAX_OUTL(); if (an == want.size()) I::sm2_public_key_asn1_encode(p, &ol, &x); }
        else if (k == SIG) { I::ASN1_SM2Signature x{a, b}; an = I::sm2_signature_asn1_encode_outl(&x); mx = I::SM2_SIGNATURE_ASN1_ENCODE_MAX_OUTL(); if (an == want.size()) I::sm2_signature_asn1_encode(p, &ol, &x); }
        else { I::ASN1_SM2Cipher x{a, b, {c, o.c.size()}, {d, o.d.size()}}; an = I::sm2_cipher_asn1_encode_outl(&x); mx = I::sm2_cipher_asn1_encode_max_outl(o.c.size(), o.d.size()); if (an == want.size()) I::sm2_cipher_asn1_encode(p, &ol, &x); }
        mc::eval(); mc::state(mc::hash(want.data(), want.size(), 10 + k));
        if (an != want.size()) mc::fail("announced", "%s: announced %zu bytes, expected %zu", KN[k], an, want.size());
        if (mx < want.size()) mc::fail("max", "%s: maximum %zu below %zu", KN[k], mx, want.size());
        if (ol != want.size() || memcmp(p, want.data(), want.size())) mc::fail("encode", "%s: %zu bytes %s, expected %zu bytes %s", KN[k], ol, mc::hex(p, want.size() < 120 ? want.size() : 120).c_str(), want.size(), mc::hex(want.data(), want.size() < 120 ? want.size() : 120).c_str());
        for (int i = 1; i <= 16; i++) if (p[-i] != 0xC7) mc::fail("bounds", "%s: wrote before the output", KN[k]);
        judge(k, p, want.size());
    }
};
static Bytes num(size_t zeros, int first, int seed) { Bytes b = mc::filled(32, seed); for (size_t i = 0; i < zeros && i < 32; i++) b[i] = 0; if (zeros < 32) b[zeros] = (u8)first; return b; }
static std::vector<Bytes>& SOME() { static std::vector<Bytes> v = [] { std::vector<Bytes> r; for (size_t z : {0, 1, 2, 15, 30, 31, 32}) for (int f : {0x01, 0x7f, 0x80, 0xff}) r.push_back(num(z, f, 5)); r.push_back(Bytes(32, 0xff)); Bytes t(32, 0); t[31] = 1; r.push_back(t); t[31] = 0; t[0] = 0x80; r.push_back(t); t[0] = 1; r.push_back(t); return r; }(); return v; }
// every component value by number of leading zero bytes and first non-zero byte
SCENARIO("values", 33 * 8, [](long it) {
    Bench B(256); size_t z = it / 8; for (int f = 1 + it % 8; f < 256; f += 8) { mc::at("%ld leading zero bytes, then %02lx", z, f); Bytes a = num(z, f, 21);
        B.encode(PRIV, {a}); Bytes pt{4}; app(pt, a); app(pt, num(31 - (z > 31 ? 31 : z), f, 4)); B.encode(PUB, {pt}); pt[0] = (u8)f; B.encode(PUB, {pt});
        for (size_t z2 : {0, 1, 31, 32}) for (int f2 : {0x01, 0x80}) { B.encode(SIG, {a, num(z2, f2, 22)}); B.encode(SIG, {num(z2, f2, 22), a}); B.encode(CIPHER, {a, num(z2, f2, 23), mc::filled(32, 1), mc::filled(5, 2)}); B.encode(CIPHER, {num(z2, f2, 23), a, mc::filled(32, 1), mc::filled(5, 2)}); } }
    if (it == 8) mc::sample("one leading zero byte"); })
SCENARIO("pairs", [] { return (long)SOME().size(); }, [](long it) { Bench B(256); for (size_t j = 0; j < SOME().size(); j++) for (size_t n : {0, 1, 32, 55}) { mc::at("pair %ld %ld length %ld", it, j, n); B.encode(SIG, {SOME()[it], SOME()[j]}); B.encode(CIPHER, {SOME()[it], SOME()[j], mc::filled(n, 1), mc::filled(n / 2, 2)}); } })
// ciphertext and hash lengths across every length-octet boundary of the parts and of the whole
SCENARIO("lengths", 300, [](long it) {
    Bench B(70000); for (int z = 0; z < 4; z++) { Bytes x = num(z & 1, 0x80, 1), y = num(z >> 1, 0x7f, 2);
        for (size_t h : {0, 1, 31, 32, 33, 64, 127, 128, 255, 256}) { mc::at("ciphertext %ld hash %ld", it, h); B.encode(CIPHER, {x, y, mc::filled(h, 3), mc::filled(it, 4)}); }
        size_t n = 65536 - 150 + it; mc::at("ciphertext %ld", n); B.encode(CIPHER, {x, y, mc::filled(32, 3), mc::filled(n, 4)}); } })
// every byte of genuine encodings replaced by every value, every truncation, insertion and removal
static std::vector<std::pair<int, Bytes>>& GEN()
{
    static std::vector<std::pair<int, Bytes>> v = [] { std::vector<std::pair<int, Bytes>> r; for (int t : {0, 1}) { Bytes a = num(0, t ? 0x80 : 0x7f, 1), b = num(0, t ? 0x12 : 0xfe, 2), pt{4}; app(pt, a); app(pt, b); r.push_back({PRIV, der(PRIV, {a})}); r.push_back({PUB, der(PUB, {pt})}); r.push_back({SIG, der(SIG, {a, b})}); r.push_back({CIPHER, der(CIPHER, {a, b, mc::filled(32, 3), mc::filled(t ? 5 : 70, 4)})}); r.push_back({CIPHER, der(CIPHER, {b, a, mc::filled(t ? 0 : 3, 3), mc::filled(t ? 0 : 200, 4)})}); } return r; }();
    return v;
}
SCENARIO("alter", 10 * 8, [](long it) {
    Bench B(1024); auto& g = GEN()[it / 8]; int k = g.first; const Bytes& b = g.second;
    for (size_t i = it % 8; i < b.size(); i += 8) {
        for (int v = 0; v < 256; v++) { Bytes x = b; x[i] = (u8)v; mc::at("encoding %ld byte %ld = %02lx", it / 8, i, v); B.dec(k, x); }
        Bytes x = b; x.erase(x.begin() + i); B.dec(k, x); for (int v : {0x00, 0x02, 0x03, 0x04, 0x30, 0x81, 0xff}) { x = b; x.insert(x.begin() + i, (u8)v); mc::at("encoding %ld insert %02lx at %ld", it / 8, v, i); B.dec(k, x); }
        mc::at("encoding %ld cut at %ld", it / 8, i); B.dec(k, Bytes(b.begin(), b.begin() + i)); x = b; x.insert(x.end(), 1 + i, 0x04); B.dec(k, x);
        for (int o = 0; o < 4; o++) if (o != k) { B.dec(o, b); B.dec(o, Bytes(b.begin() + i, b.end())); }
    } })
// encodings at the start of inputs of up to beyond 2^32 octets, also with that long a ciphertext
SCENARIO("large inputs", 25, [](long it) {
    static u8* p = [] { void* m = mmap(nullptr, ((size_t)1 << 32) + (1 << 20), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) _exit(90); return (u8*)m; }();
    size_t base = (size_t)1 << (it + 8); for (auto& g : GEN()) { memcpy(p, g.second.data(), g.second.size()); for (int d = -8; d <= (int)g.second.size() + 8; d++) { mc::at("kind %ld at the start of %ld octets", g.first, base + d); mc::state(mc::hashv(0x21, g.first, base + d)); judge(g.first, p, base + d); } memset(p, 0, g.second.size()); }
    Bytes two = tlv_of(2, content_int(num(0, 0x7f, 1))); app(two, tlv_of(2, content_int(num(0, 0x80, 2)))); for (size_t hl : {(size_t)32, base}) for (int d = -8; d <= 8; d++) { if (hl == base && it == 24) continue; size_t cl = hl == base ? 40 : base + d - 200; Bytes h1, h2, in = two, out; header(h1, 4, hl == base ? base + d - 300 : 32); size_t l1 = hl == base ? base + d - 300 : 32; header(h2, 4, cl);
        if (base < 400) continue; size_t total = two.size() + h1.size() + l1 + h2.size() + cl; header(out, 0x30, total); app(out, in); app(out, h1); memcpy(p, out.data(), out.size()); memcpy(p + out.size() + l1, h2.data(), h2.size());
        for (size_t n : {out.size() + l1 + h2.size() + cl, out.size() + l1 + h2.size() + cl + 1, out.size() + l1 + h2.size() + cl - 1}) { mc::at("ciphertext of %ld octets, hash of %ld, input of %ld", cl, l1, n); mc::state(mc::hashv(0x22, cl, l1, n)); judge(CIPHER, p, n); }
        memset(p, 0, out.size()); memset(p + out.size() + l1, 0, h2.size()); } })
// pairs of changed bytes in the structural positions
SCENARIO("alter2", 10, [](long it) {
    Bench B(1024); auto& g = GEN()[it]; const Bytes& b = g.second; std::vector<size_t> pos; size_t o = 0; auto walk = [&](auto& self, size_t off, size_t len) -> void { while (len) { Tlv t; if (tlv(t, b.data() + off, len)) return; for (size_t j = 0; j <= t.hdr && off + j < b.size(); j++) pos.push_back(off + j); if (t.con) self(self, off + t.hdr, t.len); off += t.hdr + t.len; len -= t.hdr + t.len; } }; walk(walk, o, b.size());
    static const int VS[] = {0x00, 0x01, 0x02, 0x03, 0x04, 0x1f, 0x20, 0x21, 0x22, 0x23, 0x24, 0x30, 0x7f, 0x80, 0x81, 0x82, 0x88, 0xff};
    for (size_t i : pos) for (size_t j : pos) if (i < j) for (int u : VS) for (int v : VS) { Bytes x = b; x[i] = (u8)u; x[j] = (u8)v; mc::at("encoding %ld bytes %ld %ld = %02lx %02lx", it, i, j, u, v); B.dec(g.first, x); } })
// structures assembled from every sequence of up to five parts
SCENARIO("parts", 11, [](long it) {
    Bench B(1024); std::vector<Bytes> P = {tlv_of(2, content_int(num(0, 0x80, 1))), tlv_of(2, content_int(num(0, 0x7f, 2))), tlv_of(2, content_int(num(1, 0x7f, 3))), tlv_of(2, mc::filled(34, 9)), tlv_of(2, num(0, 0x80, 6)), tlv_of(4, mc::filled(32, 4)), tlv_of(4, {}), tlv_of(3, mc::filled(33, 5)), tlv_of(0x24, tlv_of(4, {1})), tlv_of(5, {}), Bytes{2, 0}};
    int n = P.size(); for (int len = 0; len <= 4; len++) { long tot = 1; for (int i = 0; i < len; i++) tot *= n; for (long c = 0; c < tot; c++) { Bytes in = P[it]; long x = c; for (int i = 0; i < len; i++, x /= n) app(in, P[x % n]); mc::at("first %ld, rest %ld of length %ld", it, c, len); Bytes s = tlv_of(0x30, in); B.dec(SIG, s); B.dec(CIPHER, s); if (len < 2) { B.dec(PRIV, in); B.dec(PUB, in); B.dec(SIG, tlv_of(0x31, in)); B.dec(SIG, in); B.dec(CIPHER, tlv_of(0x70, in)); } } } })
MC_MAIN
