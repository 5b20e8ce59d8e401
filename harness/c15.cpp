// C15: SM2 signing under scripted random numbers and forced hash values.
#include "longsm.h"
#include <gmlib/sm2/sm2.h>
using namespace sm2r;
static Bytes default_id() { Bytes id(16); for (int i = 0; i < 16; i++) id[i] = (u8)('1' + i % 8); return id; }
static std::vector<N> keys() { const N n = SM2N(); return {small(1), small(2), sub(n, 2), sub(n, 3), filler(31), pow2(255), filler(32)}; }
static std::vector<N> nonces() { const N n = SM2N(); return {small(1), small(2), small(3), sub(n, 1), sub(n, 2), filler(41), filler(42), pow2(200)}; }
// words that are drawn as k: k-1, and k-1 + (n-1) where that fits
static std::vector<N> words_for(const N& k) { std::vector<N> w = {sub(k, 1)}; int c; N x = add(sub(k, 1), sub(SM2N(), 1), &c); if (!c) w.push_back(x); return w; }
template <class H> static void run(const N& d, const Bytes& id, bool def, const Bytes& m, const std::vector<N>& words, const char* what)
{
    std::vector<N> ks; for (auto& w : words) ks.push_back(draw(w, sub(SM2N(), 1)));
    Sig want = sign<H>(d, id, m, ks); if (want.tries < 0) { fprintf(stderr, "script without an acceptable number\n"); _exit(90); }
    u8 db[32]; rn::put(db, d); ::sm2::SM2PrivateKey<H> k(db); ScriptRng r; for (auto& w : words) r.push(w);
    struct { u8 pre[16], s[64], post[16]; } o; memset(&o, 0xA7, sizeof o); mc::Tight M(m.size() + 1), D(id.size() + 1); M.set(m); D.set(id);
    try { if (def) k.sign(o.s, M.p, m.size(), r); else k.sign(o.s, M.p, m.size(), r, D.p, id.size()); } catch (RanOut&) { mc::fail("retry", "%s: signing rejects a random number the standard accepts (draw %d of %zu)", what, want.tries, words.size()); }
    mc::trace(); mc::trans(words.size()); mc::state(mc::hashv(mc::hash(o.s, 64), rn::h(d), want.tries));
    if (get(o.s) != want.r || get(o.s + 32) != want.s) mc::fail("signature", "%s: got r=%s s=%s, the standard gives r=%s s=%s (draw %d)", what, mc::hex(o.s, 32).c_str(), mc::hex(o.s + 32, 32).c_str(), rn::str(want.r).c_str(), rn::str(want.s).c_str(), want.tries);
    if (r.asked != (size_t)want.tries * 32) mc::fail("draws", "%s: %zu random bytes were drawn, expected %d", what, r.asked, want.tries * 32);
    for (int i = 0; i < 16; i++) if (o.pre[i] != 0xA7 || o.post[i] != 0xA7) mc::fail("bounds", "%s: wrote outside the signature", what);
    if (!M.ok() || !D.ok() || (m.size() && memcmp(M.p, m.data(), m.size()))) mc::fail("bounds", "%s: input changed", what);
    // the signature verifies, by the object itself, by its public key and by a key object made from coordinates
    if (!(def ? k.verify(o.s, M.p, m.size()) : k.verify(o.s, M.p, m.size(), D.p, id.size()))) mc::fail("roundtrip", "%s: the signature does not verify", what);
    u8 pb[64]; k.fetch_pub().get_pub(pb, pb + 32); ::sm2::SM2PublicKey<H> pk(pb, pb + 32); if (!(def ? pk.verify(o.s, M.p, m.size()) : pk.verify(o.s, M.p, m.size(), D.p, id.size()))) mc::fail("roundtrip", "%s: the signature does not verify with the exported key", what);
    u8 g[32]; k.get_priv(g); if (memcmp(g, db, 32)) mc::fail("key", "%s: signing changed the key", what);
}
// force H(Z||M) = e for exactly the right input
template <class H> static Hook force(const N& d, const Bytes& id, const Bytes& m, const Bytes& e) { Bytes in = minput<H>(id, sm2c().mulg(d), m); return [in, e](const Bytes& x, u8* o, size_t n) { if (x != in) return false; for (size_t i = 0; i < n; i++) o[i] = i < e.size() ? e[i] : 0; return true; }; }
typedef ForcedHash<32> H32;
// the three rejection rules, all scripts of rejected and accepted numbers up to a depth
static N e_for(int rule, const N& k, const N& d)
{
    const Curve& c = sm2c(); N x = mod(c.mulg(k).x, c.n);
    N r = rule == 0 ? zero() : rule == 1 ? subm(zero(), k, c.n) : mulm(k, invm(d, c.n), c.n); // r=0; r+k=n; k=rd
    return subm(r, x, c.n);
}
SCENARIO("retries", 3 * 7 * 8, [](long it) {
    int rule = (int)(it / 56); N d = keys()[it / 8 % 7], k = nonces()[it % 8], n = SM2N(); N e = e_for(rule, k, d); Bytes id = default_id(), m = {'m', 's', 'g'};
    WithHook h(force<H32>(d, id, m, rn::bytes(e)));
    // letters: the rejected number in each of its spellings, its negative (same x), accepted numbers
    std::vector<N> al = words_for(k); al.push_back(sub(sub(n, k), 1)); al.push_back(word_for(filler(51))); al.push_back(word_for(small(7)));
    int depth = mc::thorough() ? 5 : 3; long L = al.size(), total = 1; for (int i = 0; i < depth; i++) total *= L;
    std::vector<bool> rej; for (auto& a : al) rej.push_back(sign<H32>(d, id, m, {draw(a, sub(n, 1))}).tries < 0);
    for (long s = 0; s < total; s++) {
        // numbers after the first accepted one are never drawn: keep one script per such tail
        bool skip = false, acc = false; for (long v = s, i = 0; i < depth; i++, v /= L) { if (acc && v % L) skip = true; acc = acc || !rej[v % L]; }
        if (skip) continue;
        std::vector<N> w; for (long v = s, i = 0; i < depth; i++, v /= L) w.push_back(al[v % L]);
        w.push_back(word_for(filler(52))); w.push_back(word_for(filler(53)));
        mc::at("rule %ld key %ld number %ld script %ld", rule, it / 8 % 7, it % 8, s);
        run<H32>(d, id, s & 1, m, w, "retry script");
    }
    if (it % 56 == 13) mc::sample("rule %d: e=%s rejects k=%s for d=%s; all scripts of %d draws over %ld words", rule, rn::str(e).c_str(), rn::str(k).c_str(), rn::str(d).c_str(), depth, L); })
// long runs of rejected numbers
SCENARIO("longretry", 6, [](long it) { N d = filler(31), k = filler(41), e = e_for((int)it % 3, k, d); Bytes id = default_id(), m = {1}; WithHook h(force<H32>(d, id, m, rn::bytes(e))); std::vector<N> w(it < 3 ? 40 : 300, word_for(k)); w.push_back(word_for(filler(52))); mc::at("rule %ld", it % 3); run<H32>(d, id, true, m, w, "long run of rejected numbers"); })
// near misses: values one away from each rule are accepted
SCENARIO("near", 3 * 7 * 8, [](long it) {
    int rule = (int)(it / 56); N d = keys()[it / 8 % 7], k = nonces()[it % 8], n = SM2N(); Bytes id = default_id(), m = {'x'};
    for (int dd = -2; dd <= 2; dd++) { N e = e_for(rule, k, d); e = dd < 0 ? subm(e, small(-dd), n) : addm(e, small(dd), n); WithHook h(force<H32>(d, id, m, rn::bytes(e))); mc::at("rule %ld offset %ld case %ld", rule, dd, it); run<H32>(d, id, true, m, {word_for(k), word_for(filler(52)), word_for(small(9)), word_for(small(10))}, "near a rejection rule"); } })
// edge random words and keys with edge hash values
static std::vector<N> edge_words() { std::vector<N> v; const N n = SM2N(); neighbours(v, small(4), 4); neighbours(v, n, 4); neighbours(v, sub(zero(), 5), 4); for (int i = 8; i < 256; i += 8) { v.push_back(pow2(i)); v.push_back(sub(n, pow2(i))); } uniq(v); return v; }
SCENARIO("words", [] { return (long)edge_words().size() * 7; }, [](long it) {
    N w = edge_words()[it / 7], d = keys()[it % 7], n = SM2N(); Bytes id = default_id(), m = {'m'};
    for (N e : {zero(), small(1), sub(n, 1), n, add(n, 1), sub(zero(), 1), filler(61)}) { WithHook h(force<H32>(d, id, m, rn::bytes(e))); mc::at("word %ld key %ld", it / 7, it % 7); run<H32>(d, id, true, m, {w, word_for(filler(62)), word_for(filler(63)), word_for(filler(64))}, "edge word"); } })
SCENARIO("keys", 256, [](long it) { N n = SM2N(); Bytes id = default_id(), m = {'k'}; for (N d : {pow2((int)it), sub(n, pow2((int)it))}) if (!is0(d) && d < sub(n, 1)) { mc::at("key bit %ld", it); run<H32>(d, id, true, m, {word_for(filler(70 + it)), word_for(filler(71 + it))}, "edge key"); } })
// messages, identities, digest sizes
template <class H> static void lens(long len) { N d = filler(31); Bytes m = mc::filled(len, len), id = mc::filled(len % 37, 3); run<H>(d, id, false, m, {word_for(filler(80 + len)), word_for(filler(81)), word_for(filler(82))}, "message length"); }
SCENARIO("messages", 200, [](long len) { mc::at("message of %ld bytes", len); lens<ForcedHash<32>>(len); if (len < 40) { lens<ForcedHash<20>>(len); lens<ForcedHash<48>>(len); lens<ForcedHash<64, 128>>(len); lens<ForcedHash<16>>(len); lens<ForcedHash<33>>(len); } })
static std::vector<long> idlens() { std::vector<long> v; for (long i = 0; i < 70; i++) v.push_back(i); for (long c : {127, 255, 256, 511, 1023, 4095, 8160, 8192, 16384, 65535, 65536}) for (long k = -2; k <= 2; k++) v.push_back(c + k); for (long c = 8184; c < 8200; c++) v.push_back(c); return v; }
SCENARIO("identities", [] { return (long)idlens().size(); }, [](long it) {
    long n = idlens()[it]; Bytes id = mc::filled(n, 9), m = {'i', 'd'}; N d = filler(31); mc::at("identity of %ld bytes", n);
    if (n * 8 <= 65535) { run<H32>(d, id, false, m, {word_for(filler(85)), word_for(filler(86))}, "identity length"); return; }
    u8 db[32], sg[64]; rn::put(db, d); ::sm2::SM2PrivateKey<H32> k(db); ScriptRng r; r.push(filler(85)); bool thrown = false; memset(sg, 0, 64); mc::trace();
    try { k.sign(sg, m.data(), m.size(), r, id.data(), id.size()); } catch (std::exception&) { thrown = true; }
    if (!thrown) mc::fail("id", "an identity of %ld bytes is not refused by sign", n);
    // the key is still usable, and nothing verifies under such an identity
    if (k.verify(sg, m.data(), m.size(), id.data(), id.size())) mc::fail("id", "something verifies under an identity of %ld bytes", n);
    k.sign(sg, m.data(), m.size(), r); if (!k.verify(sg, m.data(), m.size())) mc::fail("id", "key unusable after a refused identity"); })
// several signatures by one object, interleaved with verification, under one script
SCENARIO("sequence", 64, [](long it) {
    N d = filler(31); u8 db[32]; rn::put(db, d); ::sm2::SM2PrivateKey<H32> k(db); ScriptRng r; std::vector<N> ks; for (int i = 0; i < 8; i++) { N w = it >> i & 1 ? filler(90 + i) : word_for(small(i + 1)); r.push(w); ks.push_back(draw(w, sub(SM2N(), 1))); }
    for (int i = 0; i < 6; i++) { Bytes m = mc::filled(i * 11, i), id = default_id(); u8 sg[64]; k.sign(sg, m.data(), m.size(), r); Sig w = sign<H32>(d, id, m, {ks[i]}); mc::at("signature %ld of sequence %ld", i, it); mc::trans(); if (get(sg) != w.r || get(sg + 32) != w.s) mc::fail("sequence", "signature %d of one object differs", i); u8 bad[64]; memcpy(bad, sg, 64); bad[i * 9] ^= 4; if (!k.verify(sg, m.data(), m.size()) || k.verify(bad, m.data(), m.size())) mc::fail("sequence", "verification between signatures"); }
    mc::trace(); mc::state(mc::hashv(77, it)); })
// messages of any length up to beyond 2^32 octets
SCENARIO("long messages", [] { return lng::nlens(); }, [](long it) {
    typedef lng::SparseHash<32> HL; size_t n = lng::len(it).n(); const u8* p = lng::data() + it % 91; N d = filler(31), w = word_for(filler(1000 + it)); Bytes id = it % 3 ? default_id() : mc::filled(it % 41, 2), z = HashOf<HL>::eval(zinput(id, sm2c().mulg(d))); mc::at("message of %ld octets", n);
    Sig want = sign_e(d, num(lng::eval(32, {z, {p, n}}), sm2c().n), {draw(w, sub(SM2N(), 1))}); if (want.tries < 0) _exit(90); u8 db[32], sg[64]; rn::put(db, d); ::sm2::SM2PrivateKey<HL> k(db); ScriptRng r; r.push(w);
    if (it % 3) k.sign(sg, p, n, r); else k.sign(sg, p, n, r, id.data(), id.size()); mc::trace(); mc::trans(); mc::state(mc::hashv(0x77, n, mc::hash(sg, 64)));
    if (get(sg) != want.r || get(sg + 32) != want.s) mc::fail("signature", "message of %zu octets: got %s, the standard gives r=%s s=%s", n, mc::hex(sg, 64).c_str(), rn::str(want.r).c_str(), rn::str(want.s).c_str());
    if (!(it % 3 ? k.verify(sg, p, n) : k.verify(sg, p, n, id.data(), id.size()))) mc::fail("roundtrip", "message of %zu octets: the signature does not verify", n); })
// identities of any length up to beyond 2^32 octets are refused, whatever their length is modulo a power of two
SCENARIO("long identities", [] { return lng::nlens(14); }, [](long it) {
    size_t n = lng::len(it, 14).n(); const u8* p = lng::data(); N d = filler(31); u8 db[32], sg[64]; rn::put(db, d); ::sm2::SM2PrivateKey<H32> k(db); Bytes m = {'i', 'd'}; static const long ADD[] = {0, 16, 4096, 8191}; for (long a : ADD) { size_t l = n + a; mc::at("identity of %ld octets", l); ScriptRng r; r.push(word_for(filler(85))); bool thrown = false; memset(sg, 0, 64); mc::trace(); mc::state(mc::hashv(0x79, l));
        try { k.sign(sg, m.data(), m.size(), r, p, l); } catch (std::exception&) { thrown = true; } if (!thrown) mc::fail("id", "an identity of %zu octets is not refused by sign", l); if (k.verify(sg, m.data(), m.size(), p, l)) mc::fail("id", "something verifies under an identity of %zu octets", l);
        ScriptRng g; g.push(word_for(filler(86))); k.sign(sg, m.data(), m.size(), g); if (!k.verify(sg, m.data(), m.size())) mc::fail("id", "key unusable after a refused identity"); } })
// very many signatures by one object: alike, varied, between verifications, between failures
SCENARIO("many", 4, [](long pat) {
    N d = filler(31); u8 db[32]; rn::put(db, d); ::sm2::SM2PrivateKey<H32> k(db); ::sm2::SM2PrivateKey<H32> other(db); const long n = mc::thorough() ? 140000 : 66000; std::vector<N> w; std::vector<Bytes> m; std::vector<Sig> want; Bytes id = default_id(), big(8192, 1);
    for (int i = 0; i < 8; i++) { w.push_back(i & 1 ? word_for(small(i + 1)) : filler(90 + i)); m.push_back(mc::filled(i * 11, i)); want.push_back(sign<H32>(d, id, m[i], {draw(w[i], sub(SM2N(), 1))})); }
    for (long j = 0; j < n; j++) { int i = pat == 0 ? 5 : (int)(j % 8); u8 sg[64]; if (j % 100 == 0) { mc::at("pattern %ld signature %ld", pat, j); mc::tick(); }
        if (pat == 2) { rn::put(sg, want[i].r); rn::put(sg + 32, want[i].s); if (j % 3 == 1) sg[j % 64] ^= 8; if (k.verify(sg, m[i].data(), m[i].size()) != (j % 3 != 1)) mc::fail("many", "verification %ld by one object is wrong", j); if (j % 4) continue; }
        if (pat == 3 && j % 2) { ScriptRng e; bool t = false; try { if (j % 4 == 1) k.sign(sg, m[i].data(), m[i].size(), e); else { e.push(w[i]); k.sign(sg, m[i].data(), m[i].size(), e, big.data(), 8192); } } catch (std::exception&) { t = true; } catch (RanOut&) { t = true; } if (!t) mc::fail("many", "operation %ld on one object does not fail", j); mc::trans(); if (j % 4096 != 4095) continue; }
        ScriptRng r; r.push(w[i]); k.sign(sg, m[i].data(), m[i].size(), r); mc::trans(); if (get(sg) != want[i].r || get(sg + 32) != want[i].s) mc::fail("many", "signature %ld by one object differs from the standard's (pattern %ld)", j, pat); if (r.asked != 32) mc::fail("many", "signature %ld by one object draws %zu octets", j, r.asked); }
    mc::trace(); mc::state(mc::hashv(0x4d, pat)); })
MC_MAIN
