// C20: ASN.1 encoding.
#include "asn1ref.h"
using namespace ar; using namespace asn1;
static Bytes encode_bits(const Bytes& d, size_t bits) { Bytes c{(u8)((8 - bits % 8) % 8)}; app(c, d); return tlv_of(3, c); }
struct Out {
    mc::Guard g; size_t n = 0; u8* p = nullptr; explicit Out(size_t cap) : g(cap + 16) {}
    u8* set(size_t len) { n = len; p = g.tail(len); memset(p - 16, 0xC7, 16); if (len) memset(p, 0xE1, len < 64 ? len : 64); return p; }
    void check(const char* what, const Bytes& want, size_t announced, size_t outl, size_t maxl)
    {
        mc::eval();
        if (announced != want.size()) mc::fail("announced", "%s: announced %zu bytes, expected %zu", what, announced, want.size());
        if (outl != want.size()) mc::fail("outl", "%s: reports %zu bytes written, expected %zu", what, outl, want.size());
        if (maxl < want.size()) mc::fail("max", "%s: maximum %zu below %zu", what, maxl, want.size());
        if (want.size() && memcmp(p, want.data(), want.size())) mc::fail("bytes", "%s: %s, expected %s", what, mc::hex(p, want.size() < 40 ? want.size() : 40).c_str(), mc::hex(want.data(), want.size() < 40 ? want.size() : 40).c_str());
        for (int i = 1; i <= 16; i++) if (p[-i] != 0xC7) mc::fail("bounds", "%s: wrote before the output", what);
    }
};
static void integer(Out& o, const u8* d, size_t n)
{
    Bytes v(d, d + n), want = tlv_of(2, content_int(v)); size_t an = asn1_encode_integer_outl(d, n), ol = 7777; mc::state(mc::hash(d, n, n));
    o.set(want.size()); asn1_encode_integer_tlv(o.p, &ol, d, n); o.check("integer", want, an, ol, ASN1_ENCODE_INTEGER_MAX_OUTL(n));
    const u8* p = nullptr; size_t len = 0, rd = 0; if (asn1_decode_integer_value(&p, &len, &rd, o.p, want.size())) mc::fail("decode", "integer %s does not decode", mc::hex(v).c_str());
    size_t i = 0; while (i < n && d[i] == 0) i++; size_t wl = i == n ? 1 : n - i; if (rd != want.size() || len != wl || (i == n ? p[0] != 0 : memcmp(p, d + i, wl) != 0)) mc::fail("decode", "integer %s decodes differently", mc::hex(v).c_str());
}
struct In { mc::Guard g; explicit In(size_t c) : g(c) {} const u8* set(const Bytes& b) { u8* p = g.tail(b.size()); if (b.size()) memcpy(p, b.data(), b.size()); return p; } };
SCENARIO("boolean", 1, [](long) { Out o(64); for (int v = 0; v < 2; v++) { size_t ol = 777; o.set(3); asn1_encode_boolean_tlv(o.p, &ol, v); o.check("boolean", {1, 1, (u8)(v ? 0xff : 0)}, asn1_encode_boolean_outl(), ol, ASN1_ENCODE_BOOLEAN_MAX_OUTL()); bool b = !v; size_t rd = 0; if (asn1_decode_boolean_value(&b, &rd, o.p, 3) || b != (bool)v || rd != 3) mc::fail("decode", "boolean %d", v); mc::state(v); } })
// integers: all strings of up to three bytes, every number of leading zeros with every leading pair
SCENARIO("integer", 256, [](long a) {
    Out o(600); In in(600); mc::at("first byte %ld", a);
    if (a == 0) integer(o, in.set({}), 0);
    { Bytes b{(u8)a}; integer(o, in.set(b), 1); } u8* q = (u8*)in.set({(u8)a, 0, 0}); for (int b = 0; b < 256; b++) for (int c = 0; c < 256; c++) { q[1] = (u8)b; q[2] = (u8)c; integer(o, q, 3); if (c == 0) integer(o, q, 2); }
    for (size_t z = 0; z <= 70; z++) for (size_t tail = 0; tail <= 70; tail++) { Bytes b(z, 0); b.push_back((u8)a); Bytes t = mc::filled(tail, 3); if (tail && a == 0) t[0] = (u8)(z * 37); app(b, t); mc::at("%ld zeros, %02lx, %ld more bytes", z, a, tail); integer(o, in.set(b), b.size()); }
    if (a == 128) mc::sample("80 after 0..70 zeros before 0..70 bytes"); })
static std::vector<size_t> SIZES() { std::vector<size_t> v; for (size_t i = 0; i <= 300; i++) v.push_back(i); for (size_t c : {65536u, 1u << 24}) for (int d = -9; d <= 9; d++) v.push_back(c + d); for (size_t i = 1000; i < 60000; i = i * 3 / 2) v.push_back(i); return v; }
SCENARIO("contents", [] { return (long)SIZES().size(); }, [](long it) {
    size_t n = SIZES()[it]; Out o(n + 64); In in(n + 64); mc::at("content length %ld", n);
    for (int first : {0x00, 0x01, 0x7f, 0x80, 0xff}) {
        Bytes d = mc::filled(n, 77); if (n) d[0] = (u8)first; const u8* p = in.set(d); integer(o, p, n); mc::tick();
        Bytes want = tlv_of(4, d); size_t ol = 777, rd = 0, len = 0, bits = 0; const u8* q = nullptr; mc::state(mc::hashv(8, n, first));
        o.set(want.size()); size_t an = asn1_encode_octet_string_outl(n); asn1_encode_octet_string_tlv(o.p, &ol, p, n); o.check("octet string", want, an, ol, ASN1_ENCODE_OCTET_STRING_MAX_OUTL(n));
        if (asn1_decode_octet_string_value(&q, &len, &rd, o.p, want.size()) || len != n || rd != want.size() || q != o.p + want.size() - n) mc::fail("decode", "octet string of %zu bytes", n);
        for (int sub = 0; sub < 8; sub++) {
            size_t b = 8 * n - sub; if (n == 0 && sub) continue; Bytes db = d; if (n && sub) db.back() &= (u8)(0xff << sub); p = in.set(db); want = encode_bits(db, b);
            o.set(want.size()); an = asn1_encode_bit_string_outl(b); ol = 777; asn1_encode_bit_string_tlv(o.p, &ol, p, n, b); o.check("bit string", want, an, ol, ASN1_ENCODE_BIT_STRING_MAX_OUTL(b));
            if (asn1_decode_bit_string_value(&q, &len, &bits, &rd, o.p, want.size()) || len != n || bits != b || rd != want.size() || q != o.p + want.size() - n) mc::fail("decode", "bit string of %zu bits", b);
        }
        p = in.set(d);
    }
    if (it == 128) mc::sample("integer, octet string and 8 bit strings of 128 bytes"); })
// headers and announced lengths for every magnitude
SCENARIO("headers", 64, [](long bit) {
    Out o(64); for (int d = -40; d <= 40; d++) {
        u64 len = ((u64)1 << bit) + d; mc::at("length 2^%ld%+ld", bit, d); mc::state(mc::hashv(9, len));
        struct { const char* n; int tag; void (*f)(uint8_t*, size_t*, size_t) noexcept; } T[] = {{"sequence header", 0x30, asn1_encode_sequence_tl}, {"set header", 0x31, asn1_encode_set_tl}, {"octet string header", 0x24, asn1_encode_octet_string_tl}, {"bit string header", 0x23, asn1_encode_bit_string_tl}};
        for (auto& t : T) { Bytes want; header(want, t.tag, len); o.set(want.size()); size_t ol = 777; t.f(o.p, &ol, len); o.check(t.n, want, want.size(), ol, 1 + 1 + sizeof(size_t)); }
        if (len > ~(u64)0 - 20) continue; size_t full = header_size(len) + len;
        if (asn1_encode_tlv_outl(len) != full || asn1_encode_sequence_outl(len) != full || asn1_encode_set_outl(len) != full || asn1_encode_octet_string_outl(len) != full) mc::fail("announced", "value of %llu bytes", (unsigned long long)len);
        if (ASN1_ENCODE_TLV_MAX_OUTL(len) < full || ASN1_ENCODE_SEQUENCE_MAX_OUTL(len) < full || ASN1_ENCODE_SET_MAX_OUTL(len) < full || ASN1_ENCODE_OCTET_STRING_MAX_OUTL(len) < full) mc::fail("max", "value of %llu bytes", (unsigned long long)len);
        if (bit < 60) { size_t c = (len + 7) / 8 + 1, bf = header_size(c) + c; if (asn1_encode_bit_string_outl(len) != bf) mc::fail("announced", "bit string of %llu bits: %zu, expected %zu", (unsigned long long)len, asn1_encode_bit_string_outl(len), bf); if (ASN1_ENCODE_BIT_STRING_MAX_OUTL(len) < bf) mc::fail("max", "bit string of %llu bits", (unsigned long long)len); }
    } })
// nested structures written with the header functions decode to the same tree
SCENARIO("nested", 81, [](long it) {
    Out o(70000); for (size_t n : {0, 1, 59, 60, 61, 62, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 248, 249, 250, 251, 252, 253, 254, 255, 256, 65524, 65529, 65530, 65531, 65532, 65533, 65534, 65535, 65536}) {
        Bytes v = mc::filled(n, 1), inner; long x = it; for (int k = 0; k < 4; k++, x /= 3) app(inner, x % 3 == 0 ? tlv_of(2, content_int(Bytes{(u8)(0x7f + k)})) : x % 3 == 1 ? tlv_of(1, {0xff}) : tlv_of(4, k ? Bytes{1, 2} : v)); Bytes want = tlv_of(0x30, tlv_of(0x31, inner));
        size_t in = 0; x = it; for (int k = 0; k < 4; k++, x /= 3) { u8 b[2] = {(u8)(0x7f + k), 0}; in += x % 3 == 0 ? asn1_encode_integer_outl(b, 1) : x % 3 == 1 ? asn1_encode_boolean_outl() : asn1_encode_octet_string_outl(k ? 2 : n); }
        size_t an = asn1_encode_sequence_outl(asn1_encode_set_outl(in)), ol; u8* p = o.set(want.size()); mc::at("tree %ld with %ld bytes", it, n); mc::state(mc::hashv(10, it, n));
        asn1_encode_sequence_tl(p, &ol, asn1_encode_set_outl(in)); p += ol; asn1_encode_set_tl(p, &ol, in); p += ol; x = it;
        for (int k = 0; k < 4; k++, x /= 3) { u8 b[2] = {(u8)(0x7f + k), 0}, q[2] = {1, 2}; if (x % 3 == 0) asn1_encode_integer_tlv(p, &ol, b, 1); else if (x % 3 == 1) asn1_encode_boolean_tlv(p, &ol, true); else asn1_encode_octet_string_tlv(p, &ol, k ? q : v.data(), k ? 2 : n); p += ol; }
        o.check("nested", want, an, (size_t)(p - o.p), want.size());
        const u8 *s, *t; size_t sl, tl, rd; if (asn1_decode_sequence_value(&s, &sl, &rd, o.p, want.size()) || rd != want.size() || asn1_decode_set_value(&t, &tl, &rd, s, sl) || rd != sl || tl != in) mc::fail("decode", "nested structure");
    } })
MC_MAIN
