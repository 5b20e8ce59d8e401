// Shared scenarios of C09 (AES) and C10 (SM4): a block cipher object against its standard.
#pragma once
#include <memory>
#include "refblk.h"
#include <gmlib/block_cipher_mode/block_cipher.h>
using namespace mc; using refblk::Cov;
typedef block_cipher_mode::BlockCipher BC;
struct Ref { virtual ~Ref() = default; virtual void key(const u8*, Cov* = nullptr) = 0; virtual void crypt(u8*, const u8*, bool dec, Cov* = nullptr) const = 0;
    virtual int npos() const = 0; virtual void key_at(u8* k, int pos, const u8* words) const = 0; virtual void back(u8* p, const u8* st, int r) const = 0; };
struct Alg { const char* name; int klen, par, rounds, lanes, krounds, klanes; std::function<BC*()> make; std::function<BC*(const BC&)> clone; std::function<void(BC&, const BC&)> assign; std::function<BC*(const u8*, int)> ctor; std::function<Ref*()> ref; };
static std::vector<Alg> A;
template <class C> void add(const char* n, int rounds, int lanes, int krounds, int klanes, std::function<Ref*()> r)
{
    static_assert(C::BLOCK_SIZE == 16, "block size");
    A.push_back({n, (int)C::USER_KEY_LEN, (int)C::PARALLEL_NUM, rounds, lanes, krounds, klanes, [] { return (BC*)new C; }, [](const BC& c) { return (BC*)new C((const C&)c); }, [](BC& d, const BC& s) { (C&)d = (const C&)s; }, [](const u8* k, int e) { return (BC*)new C(k, e); }, r});
}
static void setup_algs();
SETUP([] { if (!refblk::self_test()) { fprintf(stderr, "block cipher reference broken\n"); exit(3); } setup_algs(); })
static void run(const BC& c, u8* o, const u8* i, size_t n, bool dec, bool single)
{
    if (single) { for (size_t k = 0; k < n; k++) { if (dec) c.decrypt_block(o + 16 * k, i + 16 * k); else c.encrypt_block(o + 16 * k, i + 16 * k); } }
    else if (dec) c.decrypt_blocks(o, i, n); else c.encrypt_blocks(o, i, n);
}
// n blocks, both directions, both entry points, against the reference; counts S-box coverage
static void both(const Alg& a, const BC& e, const BC& d, const Ref& r, const u8* in, size_t n, Cov* ce = nullptr, Cov* cd = nullptr)
{
    u8 w[16 * 64], o[16 * 64]; const char* nm[4] = {"encrypt_blocks", "encrypt_block", "decrypt_blocks", "decrypt_block"};
    for (int dec = 0; dec < 2; dec++) {
        for (size_t k = 0; k < n; k++) r.crypt(w + 16 * k, in + 16 * k, dec, dec ? cd : ce);
        for (int single = 0; single < 2; single++) { memset(o, 0xA5, 16 * n); run(dec ? d : e, o, in, n, dec, single); eval(); expect_eq(nm[2 * dec + single], o, w, 16 * n, nm[2 * dec + single]); }
    }
    for (size_t k = 0; k < n; k++) { run(e, o, in, n, false, false); run(d, o, o, n, true, false); expect_eq("inverse", o, in, 16 * n, "decrypt(encrypt(x))"); break; }
}
static long nalg() { return (long)A.size(); }
// every key byte x value; every block byte x value
SCENARIO("key-sweep", [] { return nalg() * 32; }, [](long it) {
    const Alg& a = A[it / 32]; int pos = it % 32; if (pos >= a.klen) return; ctx("%s", a.name); std::unique_ptr<Ref> r(a.ref()); std::unique_ptr<BC> e(a.make()), d(a.make());
    for (int base = 0; base < 3; base++) for (int v = 0; v < 256; v++) {
        Bytes k(a.klen, base == 2 ? 0xFF : 0); if (base == 1) fill(k.data(), k.size(), 31); k[pos] = (u8)v; Bytes p = filled(48, v);
        at("key base %ld byte %ld = 0x%02lx", base, pos, v); r->key(k.data()); e->set_key(k.data(), BC::ENCRYPTION); d->set_key(k.data(), BC::DECRYPTION); state(hashv(1, it, base, v)); both(a, *e, *d, *r, p.data(), 3);
    }
    sample("%s: key byte %d, 256 values", a.name, pos);
})
SCENARIO("block-sweep", [] { return nalg() * 16; }, [](long it) {
    const Alg& a = A[it / 16]; int pos = it % 16; ctx("%s", a.name); std::unique_ptr<Ref> r(a.ref()); std::unique_ptr<BC> e(a.make()), d(a.make());
    for (int kb = 0; kb < 3; kb++) { Bytes k(a.klen, kb == 2 ? 0xFF : 0); if (kb == 1) fill(k.data(), k.size(), 77); r->key(k.data()); e->set_key(k.data(), BC::ENCRYPTION); d->set_key(k.data(), BC::DECRYPTION);
        for (int base = 0; base < 3; base++) for (int v = 0; v < 256; v++) { u8 b[16]; fill(b, 16, base); if (base == 1) memset(b, 0, 16); if (base == 2) memset(b, 0xFF, 16); b[pos] = (u8)v; at("key #%ld block base %ld byte %ld = 0x%02lx", kb, base, pos, v); state(hashv(2, it, kb, base, v)); both(a, *e, *d, *r, b, 1); } }
})
// chains that run until every S-box input value has occurred in every round and byte position,
// separately for every lane of the widest batch
SCENARIO("sbox-coverage", [] { return nalg() * 8; }, [](long it) {
    const Alg& a = A[it / 8]; int sub = it % 8; ctx("%s", a.name); std::unique_ptr<Ref> r(a.ref()); std::unique_ptr<BC> e(a.make()), d(a.make());
    // sub 0: chain over the key schedule; others: batch sizes 1, par, 2*par... with per-slot coverage
    Bytes k = filled(a.klen, 1000 + it), x = filled(16 * 40, 2000 + it); long steps = 0;
    if (sub == 0) {
        Cov c; c.init(a.krounds, a.klanes); size_t unused = 0;
        { // positions that never see the S-box (AES words between): count those hit by one schedule only
            Cov t; t.init(a.krounds, a.klanes); r->key(k.data(), &t); for (int i = 0; i < a.krounds; i++) for (int l = 0; l < a.klanes; l++) { bool any = false; for (int v = 0; v < 256; v++) any |= t.hit[((size_t)i * a.klanes + l) * 256 + v]; if (!any) unused += 256; } }
        while (c.left > unused && steps < 40000) { steps++; at("key schedule chain, step %ld", steps); r->key(k.data(), &c); e->set_key(k.data(), BC::ENCRYPTION); d->set_key(k.data(), BC::DECRYPTION); both(a, *e, *d, *r, x.data(), 1); u8 o[16]; r->crypt(o, x.data(), false); fill(k.data(), k.size(), hash(o, 16)); for (int i = 0; i < 16; i++) x[i] = o[i] ^ (u8)steps; state(hashv(3, it, steps)); }
        if (c.left > unused) { fprintf(stderr, "S-box coverage of the key schedule incomplete: %zu left\n", c.left - unused); _exit(90); }
        sample("%s: %ld keys until every key-schedule S-box saw all 256 inputs", a.name, steps); return;
    }
    static const int sizes[] = {0, 1, 4, 5, 8, 9, 16, 33}; size_t n = sizes[sub];
    r->key(k.data()); e->set_key(k.data(), BC::ENCRYPTION); d->set_key(k.data(), BC::DECRYPTION);
    std::vector<Cov> ce(n), cd(n); for (auto& c : ce) c.init(a.rounds, a.lanes); for (auto& c : cd) c.init(a.rounds, a.lanes); size_t left = 1;
    while (left && steps < 40000) {
        steps++; at("batches of %ld, step %ld", n, steps); u8 w[16 * 40], o[16 * 40];
        for (int dec = 0; dec < 2; dec++) { for (size_t i = 0; i < n; i++) r->crypt(w + 16 * i, x.data() + 16 * i, dec, dec ? &cd[i] : &ce[i]); run(dec ? *d : *e, o, x.data(), n, dec, false); eval(); expect_eq(dec ? "decrypt_blocks" : "encrypt_blocks", o, w, 16 * n, dec ? "decrypt_blocks" : "encrypt_blocks"); memcpy(x.data(), w, 16 * n); for (size_t i = 0; i < n; i++) x[16 * i + (steps % 16)] ^= (u8)(steps + i); }
        state(hashv(4, it, steps)); left = 0; for (size_t i = 0; i < n; i++) left += ce[i].left + cd[i].left;
    }
    if (left) { fprintf(stderr, "S-box coverage incomplete: %zu left\n", left); _exit(90); }
    sample("%s: %ld batches of %zu until every S-box of every slot saw all 256 inputs, both directions", a.name, steps, n);
})
// every batch size x alignment of input and output x in place, tight buffers
SCENARIO("layout", [] { return nalg() * 41; }, [](long it) {
    const Alg& a = A[it / 41]; int n = it % 41; ctx("%s", a.name); std::unique_ptr<Ref> r(a.ref()); std::unique_ptr<BC> e(a.make()), d(a.make());
    Bytes k = filled(a.klen, 5), p = filled(16 * n, 6 + n), w[2]; r->key(k.data());
    static Tight tk(64), ti(4096), to(4096); e->set_key(tk.set(k), BC::ENCRYPTION); d->set_key(tk.set(k), BC::DECRYPTION); if (!tk.ok() || memcmp(tk.p, k.data(), k.size())) fail("key-written", "set_key wrote to the key");
    for (int dec = 0; dec < 2; dec++) { w[dec].resize(16 * n); for (int i = 0; i < n; i++) r->crypt(w[dec].data() + 16 * i, p.data() + 16 * i, dec); }
    static u8 raw_i[16 * 44 + 64] __attribute__((aligned(64))), raw_o[16 * 44 + 64] __attribute__((aligned(64)));
    for (int dec = 0; dec < 2; dec++) for (int single = 0; single < (n <= 3 ? 2 : 1); single++) {
        const BC& c = dec ? *d : *e; const char* nm = dec ? "decrypt" : "encrypt";
        at("%ld blocks, decrypt %ld, tight buffers", n, dec); ti.set(p); to.set(16 * n); run(c, to.p, ti.p, n, dec, single); eval(); expect_eq("layout", to.p, w[dec].data(), 16 * n, nm); if (!to.ok() || !ti.ok()) fail("out-bounds", "wrote before the buffer"); expect_eq("input-written", ti.p, p.data(), 16 * n, "input after the call");
        at("%ld blocks, decrypt %ld, in place, tight", n, dec); ti.set(p); run(c, ti.p, ti.p, n, dec, single); eval(); expect_eq("in-place", ti.p, w[dec].data(), 16 * n, nm); if (!ti.ok()) fail("out-bounds", "wrote before the buffer");
        for (int ai = 0; ai < 16; ai++) for (int ao = 0; ao < 16; ao++) {
            at("%ld blocks, decrypt %ld, input offset %ld, output offset %ld", n, dec, ai, ao); memcpy(raw_i + ai, p.data(), p.size()); memset(raw_o, 0x77, sizeof raw_o); run(c, raw_o + 32 + ao, raw_i + ai, n, dec, single); eval(); state(hashv(5, it, dec, single, ai, ao));
            expect_eq("layout", raw_o + 32 + ao, w[dec].data(), 16 * n, nm); for (int i = 0; i < 32; i++) if ((i < 32 + ao && raw_o[i] != 0x77) || raw_o[32 + ao + 16 * n + (i % 16)] != 0x77) fail("out-bounds", "wrote outside %d blocks", n);
            if (ai == ao) { memcpy(raw_i + ai, p.data(), p.size()); run(c, raw_i + ai, raw_i + ai, n, dec, single); expect_eq("in-place", raw_i + ai, w[dec].data(), 16 * n, nm); }
        }
    }
})
// histories of set_key / copy / assign / crypt on one or two objects
struct HS { std::unique_ptr<BC> o[2]; int key[2] = {-1, -1}; bool dec[2] = {false, false}; };
static const int NOP = 14;
static void hstep(const Alg& a, HS& s, int op, const std::vector<std::unique_ptr<Ref>>& R, const std::vector<Bytes>& K, bool& ok)
{
    int w = op / 7, o = op % 7; ok = true;
    if (o < 4) { s.o[w]->set_key(K[o / 2].data(), o % 2 ? BC::DECRYPTION : BC::ENCRYPTION); s.key[w] = o / 2; s.dec[w] = o % 2; trans(); return; }
    if (s.key[w] < 0) { ok = false; return; }
    trans();
    if (o == 4) { a.assign(*s.o[1 - w], *s.o[w]); s.key[1 - w] = s.key[w]; s.dec[1 - w] = s.dec[w]; return; }
    size_t n = o == 5 ? 1 : 2 * a.par + 3; Bytes p = filled(16 * n, op), q(16 * n), x(16 * n); for (size_t i = 0; i < n; i++) R[s.key[w]]->crypt(x.data() + 16 * i, p.data() + 16 * i, s.dec[w]);
    run(*s.o[w], q.data(), p.data(), n, s.dec[w], o == 5); trace(); expect_eq("history", q.data(), x.data(), 16 * n, s.dec[w] ? "decrypt" : "encrypt");
}
static void hwalk(const Alg& a, const HS& s, int depth, u64 path, const std::vector<std::unique_ptr<Ref>>& R, const std::vector<Bytes>& K)
{
    state(hashv(6, s.key[0], s.key[1], s.dec[0], s.dec[1], &a - &A[0]));
    if (!depth) return;
    for (int op = 0; op < NOP; op++) {
        HS n; for (int i = 0; i < 2; i++) { n.o[i].reset(a.clone(*s.o[i])); n.key[i] = s.key[i]; n.dec[i] = s.dec[i]; }
        at("history (base 15, last op in the lowest digit): %ld", path * 15 + op + 1); bool ok; hstep(a, n, op, R, K, ok); if (ok) hwalk(a, n, depth - 1, path * 15 + op + 1, R, K);
    }
}
SCENARIO("histories", [] { return nalg() * NOP; }, [](long it) {
    const Alg& a = A[it / NOP]; ctx("%s", a.name); std::vector<std::unique_ptr<Ref>> R; std::vector<Bytes> K; for (int i = 0; i < 2; i++) { K.push_back(filled(a.klen, 60 + i)); R.emplace_back(a.ref()); R[i]->key(K[i].data()); }
    HS s; s.o[0].reset(a.make()); s.o[1].reset(a.make()); bool ok; hstep(a, s, it % NOP, R, K, ok); if (ok) hwalk(a, s, thorough() ? 5 : 3, it % NOP + 1, R, K);
    // keyed constructor
    for (int dec = 0; dec < 2; dec++) { std::unique_ptr<BC> c(a.ctor(K[0].data(), dec ? BC::DECRYPTION : BC::ENCRYPTION)); u8 o[16], w[16]; R[0]->crypt(w, K[1].data(), dec); run(*c, o, K[1].data(), 1, dec, false); expect_eq("ctor", o, w, 16, "object keyed by its constructor"); }
})
// round keys: every window of the key schedule takes all word patterns over a small alphabet, and all
// 2^16 patterns of {00,80} octets in its first 16 octets (the user key is computed backwards)
static const u32 ALPHA[6] = {0, 0xFFFFFFFF, 0x80808080, 0x7F7F7F7F, 0x01010101, 0x00FF00FF};
static void words(u8* w, int n, long pat, int base) { for (int i = 0; i < n; i++, pat /= base) { u32 v = ALPHA[pat % base]; for (int j = 0; j < 4; j++) w[4 * i + j] = (u8)(v >> (24 - 8 * j)); } }
SCENARIO("schedule patterns", [] { return nalg() * 53; }, [](long it) {
    const Alg& a = A[it / 53]; int pos = it % 53; std::unique_ptr<Ref> r(a.ref()); if (pos >= r->npos()) return; ctx("%s", a.name); std::unique_ptr<BC> e(a.make()), d(a.make()); Bytes k(a.klen), w(a.klen), p = filled(16, pos);
    int nk = a.klen / 4, base = nk == 4 ? 6 : nk == 6 ? 4 : 3; long tot = 1; for (int i = 0; i < nk; i++) tot *= base;
    auto go = [&] { r->key_at(k.data(), pos, w.data()); r->key(k.data()); e->set_key(k.data(), BC::ENCRYPTION); d->set_key(k.data(), BC::DECRYPTION); state(hash(k.data(), k.size(), 7)); u8 x[16], o[16]; for (int dec = 0; dec < 2; dec++) { r->crypt(x, p.data(), dec); run(dec ? *d : *e, o, p.data(), 1, dec, false); eval(); expect_eq("schedule", o, x, 16, dec ? "decrypt" : "encrypt"); } };
    for (long pat = 0; pat < tot; pat++) { at("schedule words %ld.., pattern %ld", pos, pat); words(w.data(), nk, pat, base); go(); }
    long step = thorough() ? 1 : 7; for (long m = (pos * 3) % step; m < 65536; m += step) { at("schedule words %ld.., octet mask %ld", pos, m); w.assign(a.klen, 0); for (int i = 0; i < a.klen; i++) if (m >> (i % 16) & 1 && (i < 16 || m & 1)) w[i] = 0x80; go(); }
    sample("%s: schedule window %d, %ld word patterns", a.name, pos, tot);
})
// intermediate states: the state before every round takes all word patterns and {00,80}/{FF,7F} octet masks,
// in both directions, with and without the round key added
SCENARIO("state patterns", [] { return nalg() * 33; }, [](long it) {
    const Alg& a = A[it / 33]; int rnd = it % 33; if (rnd > a.rounds) return; ctx("%s", a.name); std::unique_ptr<Ref> r(a.ref()); std::unique_ptr<BC> e(a.make()), d(a.make());
    for (int kb = 0; kb < 2; kb++) { Bytes k = kb ? filled(a.klen, 81) : Bytes(a.klen, 0); r->key(k.data()); e->set_key(k.data(), BC::ENCRYPTION); d->set_key(k.data(), BC::DECRYPTION); u8 st[16], p[16], c[16], z[16], o[16];
        auto go = [&] { r->back(p, st, rnd); r->crypt(c, p, false); state(hash(p, 16, 8 + kb)); run(*e, o, p, 1, false, false); expect_eq("state", o, c, 16, "encrypt"); run(*d, o, c, 1, true, false); expect_eq("state", o, p, 16, "decrypt"); r->crypt(z, st, true); run(*d, o, st, 1, true, false); eval(3); expect_eq("state", o, z, 16, "decrypt"); };
        for (long pat = 0; pat < 1296; pat++) { at("state before round %ld, pattern %ld", rnd, pat); words(st, 4, pat, 6); go(); }
        long step = thorough() ? 1 : 5; for (long m = rnd % step; m < 65536; m += step) { at("state before round %ld, octet mask %ld", rnd, m); for (int i = 0; i < 16; i++) st[i] = (u8)((m >> i & 1) << 7 ^ (kb ? 0xFF : 0)); go(); }
    }
    sample("%s: state before round %d", a.name, rnd);
})
// re-keying with related keys: differences in one or two octets, exchanged octets, rotations, halves
SCENARIO("related keys", [] { return nalg() * 32; }, [](long it) {
    const Alg& a = A[it / 32]; int i0 = it % 32; if (i0 >= a.klen) return; ctx("%s", a.name); std::unique_ptr<Ref> r0(a.ref()), r1(a.ref()); std::unique_ptr<BC> c[2] = {std::unique_ptr<BC>(a.make()), std::unique_ptr<BC>(a.make())};
    for (int kb = 0; kb < 3; kb++) { Bytes k = kb == 0 ? Bytes(a.klen, 0x10) : filled(a.klen, 82 + kb), p = filled(16, 83), k2; u8 w0[2][16], w1[16], o[16]; r0->key(k.data()); for (int dec = 0; dec < 2; dec++) r0->crypt(w0[dec], p.data(), dec);
        auto go = [&](bool back) { r1->key(k2.data()); state(hash(k2.data(), k2.size(), 9)); for (int dec = 0; dec < 2; dec++) { int m = dec ? BC::DECRYPTION : BC::ENCRYPTION; c[dec]->set_key(k.data(), m); if (back) { run(*c[dec], o, p.data(), 1, dec, false); expect_eq("rekey", o, w0[dec], 16, "first key"); } c[dec]->set_key(k2.data(), m); r1->crypt(w1, p.data(), dec); run(*c[dec], o, p.data(), 1, dec, false); eval(); expect_eq("rekey", o, w1, 16, "second key"); } };
        for (int v = 0; v < 256; v++) { at("octet %ld := %ld", i0, v); k2 = k; k2[i0] = (u8)v; go(true); }
        for (int j = i0 + 1; j < a.klen; j++) {
            at("octets %ld, %ld exchanged", i0, j); k2 = k; std::swap(k2[i0], k2[j]); go(true);
            for (int x = 0; x < 16; x++) for (int y = 0; y < 16; y++) { at("octets %ld, %ld: differences %ld %ld", i0, j, x, y); k2 = k; k2[i0] = (u8)(k2[i0] + (x < 8 ? 1 << x : -(1 << (x - 8)))); k2[j] = (u8)(k2[j] + (y < 8 ? 1 << y : -(1 << (y - 8)))); go(kb == 0 && y == 0); }
        }
        for (int n = 1; n <= a.klen - i0; n++) { at("octets %ld..+%ld complemented / cleared / reversed", i0, n); k2 = k; for (int j = 0; j < n; j++) k2[i0 + j] ^= 0xFF; go(true); k2 = k; for (int j = 0; j < n; j++) k2[i0 + j] = 0; go(true); k2 = k; std::reverse(k2.begin() + i0, k2.begin() + i0 + n); go(true); }
        at("rotation by %ld", i0); k2 = k; std::rotate(k2.begin(), k2.begin() + i0, k2.end()); go(true);
    }
    sample("%s: keys related to three base keys at octet %d", a.name, i0);
})
// long calls: more blocks than any batch, separate buffers, in place, tight
SCENARIO("long calls", [] { return nalg() * 24; }, [](long it) {
    static const size_t ns[] = {47, 48, 63, 64, 65, 95, 96, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 4095, 4096, 4097, 65537};
    const Alg& a = A[it / 24]; size_t n = ns[it % 24]; ctx("%s", a.name); std::unique_ptr<Ref> r(a.ref()); Bytes k = filled(a.klen, 84), p = filled(16 * n, it), w(16 * n); r->key(k.data()); Tight ti(16 * n + 64), to(16 * n + 64);
    for (int dec = 0; dec < 2; dec++) { std::unique_ptr<BC> c(a.make()); c->set_key(k.data(), dec ? BC::DECRYPTION : BC::ENCRYPTION); for (size_t i = 0; i < n; i++) r->crypt(&w[16 * i], &p[16 * i], dec); state(hashv(10, it, dec)); eval(2);
        at("%ld blocks, decrypt %ld", n, dec); ti.set(p); to.set(16 * n); run(*c, to.p, ti.p, n, dec, false); expect_eq("long", to.p, w.data(), 16 * n, "separate buffers"); expect_eq("input-written", ti.p, p.data(), 16 * n, "input after the call");
        at("%ld blocks, decrypt %ld, in place", n, dec); run(*c, ti.p, ti.p, n, dec, false); expect_eq("long", ti.p, w.data(), 16 * n, "in place"); if (!ti.ok() || !to.ok()) fail("out-bounds", "wrote before the buffer"); }
    sample("%s: %zu blocks in one call", a.name, n);
})
// one call over up to 2^28 blocks and a few more: the input repeats every MiB, the output area keeps the last 17/16 MiB written
#if defined(CPU_FLAG_AES) || defined(CPU_FLAG_AVX2)
enum { HUGE_K = 28 };
#else
enum { HUGE_K = 28 };
#endif
SCENARIO("huge calls", [] { return nalg() * 2 * 13; }, [](long it) {
    int k = 28 - (int)(it / (nalg() * 2)); const Alg& a = A[it / 2 % nalg()]; bool dec = it % 2; if (k > HUGE_K && !thorough()) return; ctx("%s", a.name); const size_t PI = 1 << 20, PO = PI + (1 << 16);
    static Repeat *in = new Repeat(PI, 4100, 5), *out = new Repeat(PO, 3860, 6); static std::map<std::pair<const Alg*, bool>, Bytes> cache; Bytes& w = cache[{&a, dec}]; Bytes key = filled(a.klen, 85); if (w.empty()) { std::unique_ptr<Ref> r(a.ref()); r->key(key.data()); w.resize(PI); for (size_t i = 0; i < PI; i += 16) r->crypt(&w[i], in->p + i, dec); }
    std::unique_ptr<BC> c(a.make()); c->set_key(key.data(), dec ? BC::DECRYPTION : BC::ENCRYPTION);
    for (size_t n : {((size_t)1 << k) + 1 + it % 7, ((size_t)1 << k) - 1, ((size_t)1 << k) + 33}) { if (k > 24 && !thorough() && n != ((size_t)1 << k) + 1 + it % 7) continue; at("%ld blocks, decrypt %ld", n, dec); tick(); if (dec) c->decrypt_blocks(out->p, in->p, n); else c->encrypt_blocks(out->p, in->p, n); tick(); eval(); state(hashv(11, it, n));
        size_t total = n * 16, from = total > PO ? total - PO : 0; for (size_t q = from; q < total; q += 16) if (memcmp(out->p + q % PO, &w[q % PI], 16)) { u8 g[16]; memcpy(g, out->p + q % PO, 16); expect_eq("huge", g, &w[q % PI], 16, "a block of a long call"); } }
})
