// C08: GHASH against bitwise GF(2^128) arithmetic, every backend that is compiled in.
#include <memory>
#include "ref_gcm.h"
#include <gmlib/ghash/ghash.h>
using namespace mc; using refgcm::Blk;
// one interface for the public class and the backends behind it
struct IG { virtual ~IG() = default; virtual void key(const u8*) = 0; virtual void reset() = 0; virtual void blocks(const u8*, size_t) = 0; virtual bool fin(u8*) = 0; virtual IG* clone() const = 0; };
struct Pub : IG { ghash::GHash h;
    void key(const u8* k) override { h.set_key(k); } void reset() override { h.reset(); } void blocks(const u8* p, size_t n) override { h.update(p, n * 16); }
    bool fin(u8* d) override { try { h.do_final(d); return true; } catch (std::exception&) { return false; } } IG* clone() const override { return new Pub(*this); } };
#define INTERNAL(T, ns) struct T : IG { ghash::internal::ns::GHashCTX c; \
    void key(const u8* k) override { ghash::internal::ns::ghash_init(&c, k); } void reset() override { ghash::internal::ns::ghash_reset(&c); } \
    void blocks(const u8* p, size_t n) override { ghash::internal::ns::ghash_update_blocks(&c, p, n); } \
    bool fin(u8* d) override { return ghash::internal::ns::ghash_final_block(&c, d, nullptr, 0) == 0; } IG* clone() const override { return new T(*this); } };
INTERNAL(Common, common) INTERNAL(Lut, lut256)
static std::vector<std::pair<const char*, std::function<IG*()>>> B;
SETUP([] {
    B.push_back({"GHash class", [] { return (IG*)new Pub; }}); B.push_back({"common", [] { return (IG*)new Common; }});
    B.push_back({"lut256", [] { return (IG*)new Lut; }});
    // the reference itself: SP 800-38D / GCM test case 2
    Bytes H = unhex("66e94bd4ef8a2c3b884cfa59ca342b2e"), c = unhex("0388dace60b6a392f328c2b971b2fe78"), w = unhex("f38cbb1ad69223dcc3457ae5b6b0f885");
    refgcm::GH g(H.data()); g.padded(c.data(), 16); g.lens(0, 128); Bytes d(16); refgcm::store(d.data(), g.y); if (d != w) { fprintf(stderr, "GHASH reference broken\n"); exit(3); }
})
static void one(IG& h, const u8* x, const Blk& k, int b)
{
    u8 d[16], w[16]; h.reset(); h.blocks(x, 1);
    if (!h.fin(d)) fail("final", "final call failed on whole blocks");
    refgcm::store(w, refgcm::mul(refgcm::load(x), k)); eval();
    if (memcmp(d, w, 16)) fail("product", "%s: H=.. x=%s got %s want %s", B[b].first, hex(x, 16).c_str(), hex(d, 16).c_str(), hex(w, 16).c_str());
}
// H: every single byte value at every position; x: every bit
SCENARIO("key-bytes", 16, [](long pos) {
    for (int b = 0; b < (int)B.size(); b++) {
        std::unique_ptr<IG> h(B[b].second());
        for (int v = 0; v < 256; v++) {
            u8 H[16] = {0}; H[pos] = (u8)v; Blk k = refgcm::load(H); h->key(H);
            for (int bit = 0; bit < 128; bit++) { u8 x[16] = {0}; x[bit / 8] = (u8)(0x80 >> (bit % 8)); at("backend %ld: H byte %ld = 0x%02lx, block bit %ld", b, pos, v, bit); one(*h, x, k, b); if (!b) state(hashv(1, pos, v, bit)); }
        }
    }
    sample("H byte %ld: 256 values x 128 block bits", pos);
})
// x: every single byte value at every position; H: every bit (every table entry of every bit)
SCENARIO("block-bytes", 128, [](long bit) {
    u8 H[16] = {0}; H[bit / 8] = (u8)(0x80 >> (bit % 8)); Blk k = refgcm::load(H);
    for (int b = 0; b < (int)B.size(); b++) {
        std::unique_ptr<IG> h(B[b].second()); h->key(H);
        for (int pos = 0; pos < 16; pos++) for (int v = 0; v < 256; v++) { u8 x[16] = {0}; x[pos] = (u8)v; at("backend %ld: H bit %ld, block byte %ld = 0x%02lx", b, bit, pos, v); one(*h, x, k, b); if (!b) state(hashv(2, bit, pos, v)); }
    }
    sample("H bit %ld: 16 x 256 block bytes", bit);
})
// dense H and dense x with one byte swept
SCENARIO("dense", 16, [](long pos) {
    for (int b = 0; b < (int)B.size(); b++) for (int kk = 0; kk < (thorough() ? 24 : 6); kk++) {
        u8 H[16], x[16]; fill(H, 16, 100 + kk); if (kk == 1) memset(H, 0xFF, 16); fill(x, 16, 200 + kk * 16 + pos); if (kk == 2) memset(x, 0xFF, 16);
        std::unique_ptr<IG> h(B[b].second());
        for (int side = 0; side < 2; side++) for (int v = 0; v < 256; v++) {
            (side ? H : x)[pos] = (u8)v; h->key(H); at("backend %ld: filler %ld, %ld(0=block,1=H) byte %ld = 0x%02lx", b, kk, side, pos, v); one(*h, x, refgcm::load(H), b); if (!b) state(hashv(3, pos, kk, side, v));
        }
    }
    sample("byte %ld of dense H and x swept", pos);
})
// two-bit x two-bit corners: carries between 64-bit halves
SCENARIO("bit-pairs", 128, [](long hb) {
    for (int hb2 = (int)hb; hb2 < 128; hb2 += thorough() ? 1 : 7) {
        u8 H[16] = {0}; H[hb / 8] |= (u8)(0x80 >> (hb % 8)); H[hb2 / 8] |= (u8)(0x80 >> (hb2 % 8)); Blk k = refgcm::load(H);
        for (int b = 0; b < (int)B.size(); b++) {
            std::unique_ptr<IG> h(B[b].second()); h->key(H);
            for (int i = 0; i < 128; i++) for (int j = i; j < 128; j += thorough() ? 5 : 17) { u8 x[16] = {0}; x[i / 8] |= (u8)(0x80 >> (i % 8)); x[j / 8] |= (u8)(0x80 >> (j % 8)); at("backend %ld: H bits %ld,%ld block bits %ld,%ld", b, hb, hb2, i, j); one(*h, x, k, b); }
        }
        state(hashv(4, hb, hb2));
    }
})
static void group(IG& h, const u8* m, int n, unsigned mask)
{
    int s = 0; for (int i = 1; i <= n; i++) if (i == n || (mask >> (i - 1) & 1)) { h.blocks(m + 16 * s, i - s); s = i; trans(); }
}
// many blocks in every grouping, H zero / one / dense
SCENARIO("groupings", 8, [](long kk) {
    u8 H[16]; fill(H, 16, 300 + kk); if (kk == 0) memset(H, 0, 16); if (kk == 1) { memset(H, 0, 16); H[0] = 0x80; } if (kk == 2) memset(H, 0xFF, 16); if (kk == 3) { memset(H, 0, 16); H[15] = 1; }
    static Tight buf(4096);
    for (int b = 0; b < (int)B.size(); b++) for (int n = 0; n <= (thorough() ? 13 : 11); n++) {
        Bytes m = filled(16 * n, 400 + kk); u8* p = buf.set(m); refgcm::GH g(H); g.padded(m.data(), m.size()); u8 w[16], d[16]; refgcm::store(w, g.y);
        std::unique_ptr<IG> h(B[b].second());
        for (unsigned mask = 0; mask < (1u << (n > 1 ? n - 1 : 0)); mask++) {
            at("backend %ld: H filler %ld, %ld blocks, grouping mask 0x%lx", b, kk, n, mask); h->key(H); group(*h, p, n, mask);
            if (!h->fin(d)) fail("final", "final call failed"); eval(); state(hashv(5, kk, n, mask)); expect_eq("chain", d, w, 16, "GHASH of a chain of blocks");
        }
    }
    sample("H #%ld: every grouping of up to 11 blocks", kk);
})
SCENARIO("long", 16, [](long kk) {
    u8 H[16]; fill(H, 16, 500 + kk); static Tight buf(1 << 16); int N = thorough() ? 2048 : 300; Bytes m = filled(16 * N, 600 + kk); if (kk == 3) memset(m.data(), 0xFF, m.size());
    refgcm::GH g(H); u8 w[16], d[16];
    for (int b = 0; b < (int)B.size(); b++) for (int off = 0; off < 16; off++) {
        int n = 17 + off * 5; static u8 raw[16 * 120 + 64]; memcpy(raw + off, m.data(), 16 * n); std::unique_ptr<IG> h(B[b].second()); at("backend %ld: %ld blocks at offset %ld", b, n, off);
        u8 kb[48]; memcpy(kb + off, H, 16); h->key(kb + off); h->blocks(raw + off, n); u8 db[48]; memset(db, 0x5A, 48); if (!h->fin(db + 16)) fail("final", "final call failed");
        refgcm::GH r(H); r.padded(m.data(), 16 * n); refgcm::store(w, r.y); eval(); expect_eq("unaligned", db + 16, w, 16, "GHASH from unaligned buffers"); for (int i = 0; i < 16; i++) if (db[i] != 0x5A || db[32 + i] != 0x5A) fail("digest-bounds", "digest written outside its 16 bytes");
        memset(db, 0x5A, 48); h->reset(); h->blocks(raw + off, n); h->fin(db + off); expect_eq("unaligned", db + off, w, 16, "GHASH to an unaligned digest");
    }
    for (int n = 1; n <= N; n++) {
        g.padded(m.data() + 16 * (n - 1), 16); refgcm::store(w, g.y);
        for (int b = 0; b < (int)B.size(); b++) { std::unique_ptr<IG> h(B[b].second()); at("backend %ld: %ld blocks", b, n); h->key(H); h->blocks(buf.set(Bytes(m.begin(), m.begin() + 16 * n)), n); if (!h->fin(d)) fail("final", "final call failed"); eval(); state(hashv(6, kk, n)); expect_eq("chain", d, w, 16, "GHASH of a long chain"); }
    }
})
// word patterns: every 32-bit word of H and of the block from a small alphabet, every combination
static const u32 ALPHA[6] = {0, 0xFFFFFFFF, 0x80000000, 0x00000001, 0x80808080, 0x01010101};
static void words(u8* w, long pat) { for (int i = 0; i < 4; i++, pat /= 6) { u32 v = ALPHA[pat % 6]; for (int j = 0; j < 4; j++) w[4 * i + j] = (u8)(v >> (24 - 8 * j)); } }
SCENARIO("patterns", 1296, [](long kp) {
    u8 H[16], x[16]; words(H, kp); Blk k = refgcm::load(H); long step = thorough() ? 1 : 5;
    for (int b = 0; b < (int)B.size(); b++) { std::unique_ptr<IG> h(B[b].second()); h->key(H); for (long p = kp % step; p < 1296; p += step) { words(x, p); at("backend %ld: H pattern %ld, block pattern %ld", b, kp, p); one(*h, x, k, b); if (!b) state(hashv(8, kp, p)); } }
})
static Blk inv(const Blk& a) { Blk r, s = a; r.hi = 1ull << 63; for (int i = 1; i < 128; i++) { s = refgcm::mul(s, s); r = refgcm::mul(r, s); } return r; }
// running states: the value accumulated so far takes every word pattern and every {00,80} octet mask
// (the first block is computed backwards), then one or two more blocks in one or two calls
SCENARIO("states", 64, [](long it) {
    for (int kk = 0; kk < 4; kk++) {
        u8 H[16]; fill(H, 16, 700 + kk); if (kk == 1) { memset(H, 0, 16); H[0] = 0x80; } if (kk == 2) memset(H, 0xFF, 16); Blk k = refgcm::load(H), ik = inv(k); u8 st[16];
        auto go = [&] {
            Blk y = refgcm::load(st), x0 = refgcm::mul(y, ik); u8 m[48], w[16], d[16]; refgcm::store(m, x0);
            for (int v = 0; v < 3; v++) { if (v == 0) memset(m + 16, 0, 16); else if (v == 1) fill(m + 16, 16, 710 + kk); else memcpy(m + 16, st, 16); fill(m + 32, 16, 720); if (v == 1) for (int i = 0; i < 16; i++) m[32 + i] = 0;
                refgcm::GH g(H); g.padded(m, 48); refgcm::store(w, g.y); eval();
                for (int b = 0; b < (int)B.size(); b++) { std::unique_ptr<IG> h(B[b].second()); h->key(H); if (v == 1) { h->blocks(m, 1); h->blocks(m + 16, 2); } else h->blocks(m, 3); if (!h->fin(d)) fail("final", "final call failed"); expect_eq("states", d, w, 16, "GHASH through a chosen running state"); } }
            state(hash(st, 16, 9 + kk)); };
        for (long p = it; p < 1296; p += 64) { words(st, p); at("H filler %ld, running state pattern %ld", kk, p); go(); }
        long step = thorough() ? 64 : 64 * 11; for (long m = it; m < 65536; m += step) { at("H filler %ld, running state octet mask %ld", kk, m); for (int i = 0; i < 16; i++) st[i] = (u8)((m >> i & 1) << 7); go(); }
    }
})
// re-keying one object with related keys
SCENARIO("related keys", 16, [](long i0) {
    u8 K[16], K2[16], x[16], d[16], w[16]; fill(x, 16, 730);
    for (int b = 0; b < (int)B.size(); b++) for (int kb = 0; kb < 2; kb++) { std::unique_ptr<IG> h(B[b].second()); fill(K, 16, 740); if (kb) memset(K, 0x10, 16);
        auto go = [&] { h->key(K); h->key(K2); h->blocks(x, 1); if (!h->fin(d)) fail("final", "final call failed"); refgcm::store(w, refgcm::mul(refgcm::load(x), refgcm::load(K2))); eval(); expect_eq("rekey", d, w, 16, "GHASH after re-keying"); };
        for (int v = 0; v < 256; v++) { at("backend %ld base %ld: octet %ld := %ld", b, kb, i0, v); memcpy(K2, K, 16); K2[i0] = (u8)v; go(); }
        for (int j = (int)i0 + 1; j < 16; j++) { at("backend %ld base %ld: octets %ld and %ld", b, kb, i0, j); memcpy(K2, K, 16); std::swap(K2[i0], K2[j]); go(); for (int p = 0; p < 16; p++) for (int q = 0; q < 16; q++) { memcpy(K2, K, 16); K2[i0] = (u8)(K2[i0] + (p < 8 ? 1 << p : -(1 << (p - 8)))); K2[j] = (u8)(K2[j] + (q < 8 ? 1 << q : -(1 << (q - 8)))); go(); } }
    }
})
// histories on the public class: keys, partial blocks, final calls with and without input, reset, copies
struct Model { int key = -1; Bytes m; bool fin = false; };
static u8 HK[3][16];
struct HS { ghash::GHash h; Model o; };
static void step(HS& s, int op)
{
    u8 d[32]; static Bytes f = filled(64, 9); size_t adds[] = {0, 5, 11, 16, 37};
    auto check_final = [&](size_t extra) {
        Bytes all = s.o.m; all.insert(all.end(), f.begin() + 20, f.begin() + 20 + extra); memset(d, 0x3C, 32); bool threw = false;
        try { if (extra) s.h.do_final(d, f.data() + 20, extra); else s.h.do_final(d); } catch (std::runtime_error&) { threw = true; }
        s.o.fin = true; trace();
        if (threw != (all.size() % 16 != 0)) fail("partial", "final after %zu bytes %s", all.size(), threw ? "throws" : "does not throw");
        if (!threw) { refgcm::GH g(HK[s.o.key]); g.padded(all.data(), all.size()); u8 w[16]; refgcm::store(w, g.y); expect_eq("history", d, w, 16, "digest"); }
        for (int i = 16; i < 32; i++) if (d[i] != 0x3C) fail("digest-bounds", "digest written past 16 bytes");
    };
    trans();
    if (op < 2) { s.h.set_key(HK[op]); s.o = Model(); s.o.key = op; }
    else if (op == 2) { s.h.reset(); s.o.m.clear(); s.o.fin = false; }
    else if (op < 7) { size_t n = adds[op - 2]; s.h.update(f.data(), n); s.o.m.insert(s.o.m.end(), f.begin(), f.begin() + n); }
    else if (op == 7) check_final(0); else if (op == 8) check_final(11); else check_final(16);
}
static bool legal(const HS& s, int op) { if (op < 2) return true; if (s.o.key < 0) return false; return op == 2 || !s.o.fin; }
static void walk(const HS& s, int depth, u64 path)
{
    state(hashv(7, s.o.key, hash(s.o.m.data(), s.o.m.size()), s.o.fin));
    if (!depth) return;
    for (int op = 0; op < 10; op++) if (legal(s, op)) { at("history (base 11, last digit first): %ld", path * 11 + op + 1); HS n = s; step(n, op); walk(n, depth - 1, path * 11 + op + 1); }
}
SCENARIO("histories", 2 * 10, [](long it) {
    for (int i = 0; i < 3; i++) fill(HK[i], 16, 900 + i);
    HS s; step(s, (int)(it / 10)); int op = (int)(it % 10); if (!legal(s, op)) return; at("first op %ld", op); step(s, op); walk(s, thorough() ? 6 : 4, (it / 10 + 1) * 11 + op + 1);
    sample("all histories after key %ld, op %d", it / 10, op);
})
SCENARIO("copies", 100, [](long it) { // two live objects never influence each other
    for (int i = 0; i < 3; i++) fill(HK[i], 16, 900 + i);
    for (int c = 0; c < 100; c++) {
        HS a; step(a, 0); int o1 = (int)(it / 10), o2 = (int)(it % 10); at("copy after op %ld; then a:%ld b:%ld,%ld", o1, o2, c / 10, c % 10);
        if (!legal(a, o1)) return; step(a, o1); HS b = a; HS e; step(e, 1); e = a; // copy and assign
        if (legal(a, o2)) step(a, o2); if (legal(b, c / 10)) step(b, c / 10); if (legal(e, c % 10)) step(e, c % 10); if (legal(a, c % 10)) step(a, c % 10); if (legal(b, 7)) step(b, 7); if (legal(e, 7)) step(e, 7); if (legal(a, 7)) step(a, 7);
    }
})
// one chain in more than 2^16 calls; more than 2^16 messages and keys on one object
SCENARIO("many", [] { return (long)B.size() * 4; }, [](long it) {
    int b = (int)(it / 4), pat = (int)(it % 4); const int N = thorough() ? 140000 : 66000; std::unique_ptr<IG> h(B[b].second()); u8 H[3][16], d[16], w[16]; for (int i = 0; i < 3; i++) fill(H[i], 16, 900 + i);
    if (pat == 0) for (int v = 0; v < 3; v++) { refgcm::GH g(H[v]); h->key(H[v]); Bytes m = filled(64, 77 + v); for (int j = 0; j < N; j++) { if (j % 500 == 0) { at("backend %ld, call %ld, pattern %ld", b, j, v); tick(); } size_t n = v == 0 ? 1 : v == 1 ? j % 2 : 0; m[j % 16] += (u8)j; h->blocks(m.data(), n); g.padded(m.data(), 16 * n); trans(); } refgcm::store(w, g.y); if (!h->fin(d)) fail("final", "final call failed"); eval(); expect_eq("many", d, w, 16, "GHASH of a chain in many calls"); state(hashv(0x6d63, b, v)); }
    else { Bytes m = filled(64, 78); u8 want[3][4][16]; for (int q = 0; q < 3; q++) for (int n = 0; n < 4; n++) { refgcm::GH g(H[q]); g.padded(m.data(), 16 * n); refgcm::store(want[q][n], g.y); } int q = 0; h->key(H[0]);
        for (int j = 0; j < N; j++) { if (j % 500 == 0) { at("backend %ld, message %ld, pattern %ld", b, j, pat); tick(); } int n = j % 4; if (pat == 1 || (pat == 3 && j % 5)) h->reset(); else h->key(H[q = (j / 3) % 3]); h->blocks(m.data(), n / 2); h->blocks(m.data() + 16 * (n / 2), n - n / 2); trans(3); if (pat == 3 && j % 7 == 4) continue; if (!h->fin(d)) fail("final", "final call failed"); eval(); if (memcmp(d, want[q][n], 16)) fail("many", "%s: wrong digest in message %d on one object", B[b].first, j); } state(hashv(0x4d4d, b, pat)); }
})
MC_MAIN
