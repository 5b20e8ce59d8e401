// C19: ASN.1 decoding of every byte string.
#include "asn1ref.h"
#include <stdio.h>
#include <set>
#include <sys/mman.h>
using namespace ar; using namespace asn1;
static const char* NAME[] = {"", "boolean", "integer", "bit string", "octet string", "null"};
static const u8* const BAD = (const u8*)0x5a5a5a5a5a5a5a5aull;
static std::string show(const u8* in, size_t n) { return n <= 40 ? mc::hex(in, n) : mc::hex(in, 24) + "... (" + std::to_string(n) + " bytes)"; }
static void judge(const u8* in, size_t n)
{
    Tlv r; int want = tlv(r, in, n); Asn1TLV t; memset(&t, 0x5a, sizeof t); size_t rd = 77777;
    int got = asn1_decode_tlv(&t, &rd, in, n); mc::eval();
    if (got != want) mc::fail("tlv", "%s: asn1_decode_tlv returns %d, expected %d", show(in, n).c_str(), got, want);
    if (!want) {
        if ((int)t.tag_class != r.cls << 6 || (int)t.tag_pc != r.con << 5 || (int)t.tag_number != r.num) mc::fail("tlv", "%s: class %d form %d number %d", show(in, n).c_str(), (int)t.tag_class, (int)t.tag_pc, (int)t.tag_number);
        if (t.length != r.len || t.value != in + r.hdr || rd != r.hdr + r.len) mc::fail("tlv", "%s: length %zu at %ld, %zu bytes read; expected %zu at %zu, %zu", show(in, n).c_str(), t.length, (long)(t.value - in), rd, r.len, r.hdr, r.hdr + r.len);
    }
    for (int num : {1, 2, 3, 4, 5, 16, 17}) {
        Val v = typed(num, in, n); bool b = false; const u8* p = BAD; size_t len = 77777, bits = 77777; rd = 77777; int e = 0;
        switch (num) {
        case 1: e = asn1_decode_boolean_value(&b, &rd, in, n); break;
        case 2: e = asn1_decode_integer_value(&p, &len, &rd, in, n); break;
        case 3: e = asn1_decode_bit_string_value(&p, &len, &bits, &rd, in, n); break;
        case 4: e = asn1_decode_octet_string_value(&p, &len, &rd, in, n); break;
        case 5: e = asn1_decode_null_value(&rd, in, n); break;
        case 16: e = asn1_decode_sequence_value(&p, &len, &rd, in, n); break;
        case 17: e = asn1_decode_set_value(&p, &len, &rd, in, n); break;
        }
        const char* nm = num < 6 ? NAME[num] : num == 16 ? "sequence" : "set";
        if (v.verdict == NO) { if (!e) mc::fail("accepted", "%s accepted as %s", show(in, n).c_str(), nm); continue; }
        if (v.verdict == YES && e) mc::fail("refused", "%s refused as %s (%d)", show(in, n).c_str(), nm, e);
        if (e) continue;
        if (rd != v.used) mc::fail("read", "%s as %s: %zu bytes read, expected %zu", show(in, n).c_str(), nm, rd, v.used);
        if (num == 1) { if (b != v.b) mc::fail("value", "%s as boolean: %d", show(in, n).c_str(), b); continue; }
        if (num == 5) continue;
        if (v.verdict == FREE && num != 2) { if (p < in || len > n || p + len > in + v.used || (num == 3 && bits > 8 * len)) mc::fail("inside", "%s as %s: %zu bytes at %ld", show(in, n).c_str(), nm, len, (long)(p - in)); continue; }
        if (p != in + v.off || len != v.len) mc::fail("value", "%s as %s: %zu bytes at %ld, expected %zu at %zu", show(in, n).c_str(), nm, len, (long)(p - in), v.len, v.off);
        if (num == 3 && bits != v.bits) mc::fail("value", "%s: %zu bits, expected %zu", show(in, n).c_str(), bits, v.bits);
    }
}
struct End {            // strings ending at an inaccessible page
    mc::Guard g; explicit End(size_t cap) : g(cap) {}
    u8* at(size_t n) { return g.tail(n); }
    void operator()(const Bytes& b) { u8* p = at(b.size()); if (b.size()) memcpy(p, b.data(), b.size()); mc::state(mc::hash(b.data(), b.size(), b.size())); judge(p, b.size()); }
};
// every string of up to three bytes (thorough: four bytes with every pair of first bytes over the typed tags)
SCENARIO("all", 257, [](long it) {
    End E(64); mc::at("first byte %ld", it);
    if (it == 256) { judge(E.at(0), 0); for (int a = 0; a < 256; a++) { u8* p = E.at(1); p[0] = (u8)a; judge(p, 1); mc::state(mc::hashv(1, a)); } return; }
    u8* p = E.at(2); p[0] = (u8)it; for (int b = 0; b < 256; b++) { p[1] = (u8)b; judge(p, 2); mc::state(mc::hashv(2, it, b)); }
    p = E.at(3); p[0] = (u8)it; for (int b = 0; b < 256; b++) for (int c = 0; c < 256; c++) { p[1] = (u8)b; p[2] = (u8)c; judge(p, 3); mc::state(mc::hashv(3, it, b, c)); }
    bool deep = mc::thorough() || it == 1 || it == 2 || it == 3 || it == 4;
    if (deep) { p = E.at(4); p[0] = (u8)it; for (int b : {0, 1, 2, 3, 4, 5, 127, 128, 129, 130, 131, 136, 137, 255}) for (int c = 0; c < 256; c++) for (int d = 0; d < 256; d++) { p[1] = (u8)b; p[2] = (u8)c; p[3] = (u8)d; judge(p, 4); mc::state(mc::hashv(4, it * 256 + b, c * 256 + d)); } }
    if (it == 3) mc::sample("all strings 03 xx yy"); })
// structural alphabet, up to 5 bytes (thorough 6)
static const u8 AL[] = {0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x10, 0x11, 0x1f, 0x22, 0x23, 0x24, 0x30, 0x31, 0x42, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x88, 0x89, 0xff};
static const int NA = sizeof AL;
static void words(End& E, u8* pre, int k, int n) { if (k == n) { u8* p = E.at(n); memcpy(p, pre, n); mc::state(mc::hash(p, n, n)); judge(p, n); return; } for (int i = 0; i < NA; i++) { pre[k] = AL[i]; words(E, pre, k + 1, n); } }
SCENARIO("alphabet", NA * NA, [](long it) { End E(64); u8 pre[8] = {AL[it / NA], AL[it % NA]}; mc::at("prefix %ld", it); for (int n = 4; n <= (mc::thorough() ? 6 : 5); n++) { mc::tick(); words(E, pre, 2, n); } })
// every length in every length form, complete, cut and followed by more
static std::vector<size_t> LENS() { std::vector<size_t> v; for (size_t i = 0; i <= 140; i++) v.push_back(i); for (size_t i = 250; i <= 262; i++) v.push_back(i); for (size_t i = 65530; i <= 65540; i++) v.push_back(i); for (size_t i = (1 << 24) - 2; i <= (1 << 24) + 2; i++) v.push_back(i); return v; }
static std::vector<Bytes> forms(u64 len) { std::vector<Bytes> r; if (len < 128) r.push_back({(u8)len}); for (int k = 1; k <= 12; k++) { if (k < 8 && len >> (8 * k)) continue; Bytes b{(u8)(128 + k)}; for (int i = k - 1; i >= 0; i--) b.push_back(i >= 8 ? 0 : (u8)(len >> (8 * i))); r.push_back(b); } return r; }
SCENARIO("lengths", [] { return (long)LENS().size(); }, [](long it) {
    size_t len = LENS()[it]; bool big = len > 1000; End E(len + 64);
    for (auto& f : forms(len)) for (int tag : big ? std::vector<int>{0x02, 0x03, 0x04, 0x30} : std::vector<int>{0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x0a, 0x10, 0x11, 0x23, 0x24, 0x30, 0x31, 0x42, 0x5f, 0x82, 0xa3, 0xe4, 0xf0, 0x70})
        for (int first : big ? std::vector<int>{0x00, 0x7f} : std::vector<int>{0x00, 0x01, 0x07, 0x08, 0x7f, 0x80, 0xff}) {
            Bytes b{(u8)tag}; app(b, f); size_t h = b.size(); Bytes c = mc::filled(len, 5 + first); if (len) c[0] = (u8)first; app(b, c); mc::tick(); mc::at("length %ld, tag %ld, %ld length octets, first content byte %ld", len, tag, f.size(), first);
            E(b); for (size_t cut = 1; cut <= h && cut <= b.size(); cut++) { Bytes x(b.begin(), b.end() - cut); if (cut < 4 || !big) E(x); Bytes y(b.begin(), b.begin() + (cut - 1)); E(y); }
            for (int m = 1; m <= 3; m++) { b.push_back(0x02); E(b); }
        }
    if (it == 128) mc::sample("length 128 in 8 forms, 20 tags"); })
// lengths whose end overflows, with little input
SCENARIO("huge", 64, [](long bit) {
    End E(64); std::vector<u64> v; for (int d = -20; d <= 20; d++) { v.push_back(((u64)1 << bit) + d); v.push_back((u64)0 - ((u64)1 << bit) + d); }
    for (u64 len : v) for (auto& f : forms(len)) for (int tag : {1, 2, 3, 4, 5, 0x30, 0x31, 0x24, 0x85}) for (size_t extra = 0; extra < 20; extra++) { if (len + 20 < 60 && f.size() > 40) continue; Bytes b{(u8)tag}; app(b, f); b.resize(b.size() + extra, 0x05); mc::at("bit %ld tag %ld extra %ld", bit, tag, extra); E(b); } })
// inputs that really are longer than any count of fewer than 64 bits: short and long elements at their start
SCENARIO("large inputs", 25, [](long it) {
    static u8* p = [] { void* m = mmap(nullptr, ((size_t)1 << 32) + (1 << 20), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) _exit(90); return (u8*)m; }();
    size_t base = (size_t)1 << (it + 8); for (int d = -12; d <= 12; d++) for (int tag : {1, 2, 3, 4, 5, 0x30, 0x31, 0x24, 0x85}) {
        std::set<size_t> ls{0, 1, 2, 5, 127, 128, 200, 300, 65535, 65536, base / 2, base - 40}; for (int e = -14; e <= 2; e++) ls.insert(base + d + e);
        for (size_t l : ls) { Bytes h; header(h, tag, l); memcpy(p, h.data(), h.size()); if (l) p[h.size()] = tag == 3 ? 0 : 0x11; mc::at("input of %ld octets, tag %ld, element of %ld", base + d, tag, l); mc::state(mc::hashv(base + d, tag, l)); judge(p, base + d); p[h.size()] = 0; } } })
// contents that decide: integers and bit strings by their first bytes, booleans by value
SCENARIO("contents", 256, [](long a) {
    End E(400); for (int b = 0; b < 256; b++) for (size_t len : {1, 2, 3, 4, 32, 33, 34, 126, 127, 128, 129, 257}) for (int tag : {1, 2, 3, 4, 0x22, 0x23}) {
        Bytes c = mc::filled(len, 9); c[0] = (u8)a; if (len > 1) c[1] = (u8)b; else if (b) continue; Bytes x = tlv_of(tag, c); mc::at("content %02lx %02lx.. length %ld tag %ld", a, b, len, tag); E(x); c.back() = 0; E(tlv_of(tag, c)); } })
// asn1_dump: result and printed bytes
static int dump(const Bytes& in, std::string& out, End& E)
{
    u8* p = E.at(in.size()); if (in.size()) memcpy(p, in.data(), in.size());
    char* buf = nullptr; size_t bn = 0; FILE* save = stdout; stdout = open_memstream(&buf, &bn); if (!stdout) _exit(90);
    int r = asn1_dump(p, in.size()); fclose(stdout); stdout = save; out.assign(buf, bn); free(buf); return r;
}
static Bytes printed(const std::string& s)
{
    Bytes r; size_t i = 0; while (i < s.size()) { if (s[i] == ';') { while (i < s.size() && s[i] != '\n') i++; continue; } if (isxdigit((u8)s[i]) && i + 1 < s.size() && isxdigit((u8)s[i + 1])) { r.push_back((u8)strtol(s.substr(i, 2).c_str(), 0, 16)); i += 2; continue; } i++; }
    return r;
}
static void judge_dump(const Bytes& b, End& E)
{
    int d = 0; bool ok = nested_ok(b.data(), b.size(), 0, d); std::string o; int r = dump(b, o, E); mc::eval(); mc::state(mc::hash(b.data(), b.size(), 99));
    if (!ok && r == 0) mc::fail("dump", "%s: asn1_dump reports success", show(b.data(), b.size()).c_str());
    if (ok && d <= 64 && r) mc::fail("dump", "%s: asn1_dump fails with %d", show(b.data(), b.size()).c_str(), r);
    if (ok && r == 0 && printed(o) != b) mc::fail("dump", "%s: printed %s", show(b.data(), b.size()).c_str(), mc::hex(printed(o)).c_str());
}
SCENARIO("dump", 16, [](long it) {
    End E(1 << 20); static const u8 DA[] = {0x30, 0x04, 0x00, 0x01, 0x02, 0x03, 0x05, 0x24, 0x80, 0x81, 0x1f}; const int n = sizeof DA; long c = 0;
    for (int len = 0; len <= (mc::thorough() ? 6 : 5); len++) { long tot = 1; for (int i = 0; i < len; i++) tot *= n; for (long k = 0; k < tot; k++) if (c++ % 16 == it) { Bytes b; long x = k; for (int i = 0; i < len; i++) { b.push_back(DA[x % n]); x /= n; } mc::at("string %ld of length %ld", k, len); judge_dump(b, E); } } })
// trees: every shape of nested constructed values with up to 5 leaves, lengths across 127/128/255/256, and each byte of them changed
SCENARIO("trees", 64, [](long it) {
    End E(1 << 20);
    for (size_t leaf : {0, 1, 5, 8, 9, 120, 126, 127, 128, 250, 260}) for (int shape = (int)it; shape < 256; shape += 64) {
        Bytes cur; for (int i = 0; i < 8; i++) { if (shape >> i & 1) cur = tlv_of(i & 1 ? 0x30 : 0xa3, cur); else app(cur, tlv_of(i & 1 ? 0x04 : 0x86, mc::filled(leaf, i))); }
        mc::at("shape %ld leaf %ld", shape, leaf); judge_dump(cur, E); E(cur); if (leaf > 9) continue;
        for (size_t i = 0; i < cur.size(); i++) for (int d : {1, 255, 0x80, 0x20}) { Bytes x = cur; x[i] ^= (u8)d; judge_dump(x, E); } for (size_t n = 0; n < cur.size(); n++) judge_dump(Bytes(cur.begin(), cur.begin() + n), E); } })
// nesting: no depth may crash; up to 64 levels must be followed
SCENARIO("depth", 60, [](long it) {
    size_t d = it < 40 ? it * 2 : it < 50 ? 60 + (it - 40) * 10 : (size_t)200 << (it - 50); if (d > 60000) d = 60000;
    End E(1 << 20); Bytes b; for (size_t i = 0; i < d; i++) { size_t rest = (d - 1 - i) * 6; b.push_back(0x30); b.push_back(0x84); for (int k = 3; k >= 0; k--) b.push_back((u8)(rest >> (8 * k))); }
    mc::at("depth %ld", d); if (d <= 400) { judge_dump(b, E); return; }
    std::string o; int save = 0; (void)save; u8* p = E.at(b.size()); memcpy(p, b.data(), b.size()); FILE* so = stdout; stdout = fopen("/dev/null", "w"); if (!stdout) _exit(90); asn1_dump(p, b.size()); fclose(stdout); stdout = so; mc::eval(); })
MC_MAIN
