// C06: SM3 against the standard: every length, padding position and single-byte message
// in bounds; multi-block calls; the 2^32-bit crossing; the length field up to 2^64.
#include "ref_sm3.h"
#include <gmlib/sm3/sm3.h>
using namespace mc;
static Tight& buf() { static Tight* t = new Tight(1 << 16); return *t; }
SETUP([] { if (!refsm3::self_test()) { fprintf(stderr, "SM3 reference broken\n"); exit(3); } })
static void one(const Bytes& m, const char* what)
{
    sm3::SM3 h; u8 d[32]; u8* p = buf().set(m); h.do_final(d, p, m.size()); eval(); state(hash(m.data(), m.size(), m.size()));
    expect_eq("digest", d, refsm3::sm3(m).data(), 32, what);
}
SCENARIO("2^32 bits", 2, [](long w) { // one message that crosses 2^29 bytes, finished at every length around it
    Bytes chunk = filled(1 << 20, 99 + w); sm3::SM3 h; refsm3::SM3 r; u64 target = (1ull << 29) - 128 - (w ? 64 : 0), n = 0;
    while (n + chunk.size() <= target) { at("at byte %ld", n); h.update(chunk.data(), chunk.size()); r.blocks(chunk.data(), chunk.size() / 64); n += chunk.size(); }
    size_t rest = target - n; h.update(chunk.data(), rest); r.blocks(chunk.data(), rest / 64); n += rest;
    for (size_t k = 0; k <= 400; k++) { at("length 2^29-128+%ld", k); sm3::SM3 c = h; u8 d[32]; if (w) { c.update(chunk.data(), k / 2); c.do_final(d, chunk.data() + k / 2, k - k / 2); } else c.do_final(d, chunk.data(), k); eval(); state(hashv(w, n + k)); expect_eq("digest", d, r.finish(chunk.data(), k).data(), 32, "digest"); }
    sample("every length from 2^29-%d to 2^29+%d bytes", w ? 192 : 128, w ? 208 : 272);
})
// one call with so many bytes that bit and byte counts pass 2^31, 2^32 (and 2^33): the message is a
// 1 MiB pattern mapped over and over
SCENARIO("one call", 6, [](long w) {
    const size_t P = 1 << 20; u64 n = w < 2 ? (1ull << 28) : w < 4 ? (1ull << 29) : (1ull << 32); if (w >= 4 && !thorough()) return;
    Repeat m(P, n / P + 1, 7 + w); refsm3::SM3 r; const u8* p = m.p; std::vector<u64> ends = {n - 1, n, n + 200}; size_t done = 0; if (w & 1) ends = {n + 64 * 5 + 3};
    Bytes pat(p, p + P);
    for (u64 L : ends) { at("%ld bytes in one call", L); while (done + P <= L - L % 64) { r.blocks(pat.data(), P / 64); done += P; tick(); } refsm3::SM3 c = r; size_t rest = L - done; c.blocks(pat.data(), rest / 64); Bytes want = c.finish(pat.data() + rest / 64 * 64, rest % 64);
        u8 d[32]; sm3::SM3 h; if (w & 1) { h.update(p, 5); h.update(p + 5, L - 6); h.do_final(d, p + L - 1, 1); } else h.do_final(d, p, L); eval(); state(hashv(11, w, L)); expect_eq("digest", d, want.data(), 32, "one long call"); tick();
    }
})
SCENARIO("lengths", 16, [](long i) { // every length x data patterns
    size_t M = thorough() ? 4400 : 1100;
    for (size_t L = i; L <= M; L += 16) for (int pat = 0; pat < 4; pat++) {
        at("length %ld pattern %ld", L, pat); Bytes m = pat == 0 ? Bytes(L, 0) : pat == 1 ? Bytes(L, 0xFF) : filled(L, pat * 1000 + L); one(m, "digest");
    }
    sample("all lengths 0..%zu (class %ld mod 16), 4 data patterns", M, i);
})
SCENARIO("bytes", 16, [](long i) { // every value of every byte of a block, in the first, a middle and a padded block
    for (size_t L : {(size_t)64, (size_t)55, (size_t)128, (size_t)20}) for (size_t pos = i; pos < L; pos += 16) for (int v = 0; v < 256; v++) for (int bg = 0; bg < 2; bg++) {
        at("length %ld, byte %ld = %ld, background %ld", L, pos, v, bg); Bytes m = bg ? filled(L, 5) : Bytes(L, 0); m[pos] = v; one(m, "digest");
    }
    for (size_t a = i; a < 512; a += 16) for (size_t b = a + 1; b < 512; b++) { if (!thorough() && (b - a) % 8 != 1 && a / 32 != b / 32) continue; at("two bits %ld,%ld", a, b); Bytes m(64, 0); m[a / 8] |= 0x80 >> (a % 8); m[b / 8] |= 0x80 >> (b % 8); one(m, "digest"); }
    sample("every byte position x value, pairs of single bits");
})
SCENARIO("multiblock", 24, [](long i) { // n blocks in one call, from every chaining depth
    for (size_t pre = 0; pre <= 3; pre++) for (size_t n = i * 2 + 1; n <= (size_t)i * 2 + 2; n++) for (int tail = 0; tail < 64; tail += (tail < 54 ? 9 : 1)) {
        at("%ld blocks, then %ld blocks in one call, then %ld bytes", pre, n, tail); Bytes m = filled((pre + n) * 64 + tail, n * 100 + pre);
        sm3::SM3 h; u8 d[32]; u8* p = buf().set(m); for (size_t k = 0; k < pre; k++) h.update(p + 64 * k, 64); h.update(p + 64 * pre, 64 * n); h.do_final(d, p + 64 * (pre + n), tail); eval(); state(hash(m.data(), m.size(), 3));
        expect_eq("digest", d, refsm3::sm3(m).data(), 32, "digest");
        // unaligned input
        for (int al = 1; al < 16; al += 2) { Bytes big(m.size() + 32); memcpy(big.data() + al, m.data(), m.size()); sm3::SM3 g; g.do_final(d, big.data() + al, m.size()); eval(); expect_eq("digest", d, refsm3::sm3(m).data(), 32, "unaligned input"); }
    }
})
// the 64-bit length: start the counter at a chosen value (only if the context exposes it)
template <class C> auto set_bits(C& c, u64 v) -> decltype(c.data_bits, bool()) { c.data_bits = v; return true; }
inline bool set_bits(...) { return false; }
namespace A = sm3::alg;
template <class CTX, class I, class U, class F> void counter(I init, U upd, F fin, int tagv)
{
    for (int hb = 9; hb <= 63; hb++) for (int d = -2; d <= 1; d++) for (size_t nb = 0; nb <= 3; nb++) for (size_t tail : {(size_t)0, (size_t)1, (size_t)55, (size_t)56, (size_t)63}) {
        u64 start = (1ull << hb) + (u64)((long)d * 512); if (hb == 63 && d == 1) start = ~(u64)0 - 511 - 512 * 2; // room for exactly two more blocks
        at("counter starts at %ld bits, %ld blocks, %ld tail bytes", start, nb, tail);
        CTX c; init(&c); if (!set_bits(c, start)) return; Bytes m = filled(nb * 64 + tail, 4); refsm3::SM3 r; r.blocks(m.data(), nb);
        unsigned __int128 total = (unsigned __int128)start + nb * 512 + tail * 8; bool over = total >> 64; u8 dg[32]; eval(); state(hashv(tagv, start, nb, tail));
        int e = upd(&c, m.data(), nb); if (!e) e = fin(&c, dg, m.data() + nb * 64, tail);
        if (over) { if (!e) fail("overlong", "a message above 2^64 bits was accepted"); }
        else { if (e) fail("rejected", "a message below 2^64 bits was rejected"); expect_eq("digest", dg, r.pad(m.data() + nb * 64, tail, (u64)total).data(), 32, "digest with a large length"); }
    }
    sample("length counter started at 2^k +- 512 for k=9..63");
}
SCENARIO("length counter", 1, [](long) { counter<A::Sm3CTX>(A::sm3_init, A::sm3_update_blocks, A::sm3_final_block, 1); })
// chains of states: digest of digest ..., both backends
SCENARIO("chain", 4, [](long w) {
    Bytes x = filled(32 + w * 17, w); for (int i = 0; i < (thorough() ? 60000 : 8000); i++) { at("step %ld", i); one(x, "digest"); Bytes d = refsm3::sm3(x); x.insert(x.begin(), d.begin(), d.end()); x.resize(32 + (i * 7 + w) % 90); }
})
MC_MAIN
