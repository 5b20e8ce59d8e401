// C25: SM9 signing under scripted random numbers and verification of every kind of byte string.
#include "sm9ref.h"
using namespace s9;
typedef sm3::SM3 S3; typedef ForcedHash<32> H32; typedef ForcedHash<20> H20; typedef ForcedHash<40> H40; typedef ForcedHash<64, 128> H64;
#define OK(cond, key, ...) do { if (!(cond)) mc::fail(key, __VA_ARGS__); } while (0)
static Bytes text(const char* s) { return Bytes(s, s + strlen(s)); }
static const Bytes ALICE = text("Alice");
static std::vector<N> masters() { std::vector<N> v = {filler(64), small(1), rn::sub(N9(), 1), pow2(254), small(2), filler(65)}; for (auto& x : v) x = mod(x, N9()); return v; }
static std::vector<N> nonces() { const N n = N9(); return {small(1), small(2), rn::sub(n, 1), rn::sub(n, 2), mod(filler(41), n), pow2(200), mod(filler(42), n), pow2(255) < n ? pow2(255) : pow2(254)}; }
static std::vector<N> words_for(const N& r) { std::vector<N> w = {rn::sub(r, 1)}; int c; N x = rn::add(rn::sub(r, 1), NM1(), &c); if (!c) w.push_back(x); return w; }
template <class H> struct Ctx { N ks, t2; Bytes id; int hid; typename Lib<H>::M m; typename Lib<H>::K k; typename Lib<H>::P p; };
template <class H> static const Ctx<H>& ctx(const N& ks, const Bytes& id, int hid)
{
    static std::map<u64, Ctx<H>> c; u64 key = mc::hashv(rn::h(ks), mc::hash(id.data(), id.size()), hid, id.size()); auto f = c.find(key); if (f != c.end() && !sm2r::hook()) return f->second; if (f != c.end()) c.erase(f);
    Ctx<H>& x = c[key]; x.ks = ks; x.id = id; x.hid = hid; x.t2 = user<H>(ks, id, hid); if (is0(x.t2)) _exit(90); u8 b[32]; rn::put(b, ks); x.m.set_priv(b); x.k = Lib<H>::extract(x.m, id, hid); Bytes q = Lib<H>::pub(x.m.fetch_SignPublicKey()); x.p.set_pub(&q[0], &q[64]); return x;
}
template <class H> static Sig9 run(const Ctx<H>& c, const Bytes& m, const std::vector<N>& words, int fmt, const char* what)
{
    typedef Lib<H> L; std::vector<N> rs; ScriptRng g; for (auto& w : words) rs.push_back(draw(w, NM1())), g.push(w); Sig9 want = s9::sign<H>(c.ks, c.t2, m, rs); if (want.tries < 0) { fprintf(stderr, "script without an acceptable number\n"); _exit(90); }
    Bytes before = L::key(c.k), e = encsig(want.h, want.S, fmt), sg = L::sign(c.k, m, g, fmt); mc::eval(); mc::trace(); mc::trans(words.size()); mc::state(mc::hashv(mc::hash(e.data(), e.size()), rn::h(c.ks), fmt, want.tries));
    OK(sg == e, "signature", "%s: got %s, the standard gives %s (draw %d)", what, mc::hex(sg).c_str(), mc::hex(e).c_str(), want.tries); OK(g.asked == (size_t)want.tries * 32, "draws", "%s: %zu random bytes were drawn, expected %d", what, g.asked, want.tries * 32); OK(L::key(c.k) == before, "key", "%s: signing changed the key", what);
    OK(L::verify(c.k, sg, m, c.id, c.hid) && L::verify(c.p, sg, m, c.id, c.hid), "roundtrip", "%s: the signature does not verify", what); return want;
}
// --- signing ---------------------------------------------------------------
SCENARIO("keys and numbers", 6 * 8, [](long it) { const Ctx<S3>& c = ctx<S3>(masters()[it / 8], it % 2 ? ALICE : mc::filled(it, it), it % 3 ? 1 : (int)(it * 37 & 255)); for (auto& w : words_for(nonces()[it % 8])) for (int f = 0; f < 3; f++) { mc::at("case %ld format %ld", it, f); run<S3>(c, mc::filled(it * 3, f), {w}, f, "edge number"); } })
SCENARIO("random words", [] { return mc::thorough() ? 200L : 48L; }, [](long it) { N w; long d = it % 24; const N z = zero(); w = d < 3 ? small(d) : d < 8 ? rn::sub(rn::add(N9(), 1), d - 3) : d < 12 ? rn::sub(z, d - 7) : d < 16 ? pow2(d * 16) : filler(it); mc::at("word %ld", it); run<S3>(ctx<S3>(masters()[it % 2], ALICE, 1), mc::filled(20, it), {w}, (int)(it % 3), "random word"); })
SCENARIO("message lengths", [] { return mc::thorough() ? 700L : 260L; }, [](long it) { mc::at("length %ld", it); N w = filler(it % 5 + 70); run<S3>(ctx<S3>(masters()[0], ALICE, 1), mc::filled(it, 9), {w}, (int)(it % 3), "message length"); if (it < 100) run<H64>(ctx<H64>(masters()[0], ALICE, 1), mc::filled(it, 9), {w}, (int)(it % 3), "message length"); if (it < 80) { run<H20>(ctx<H20>(masters()[0], ALICE, 1), mc::filled(it, 9), {w}, (int)(it % 3), "message length"); run<H40>(ctx<H40>(masters()[0], ALICE, 1), mc::filled(it, 9), {w}, (int)(it % 3), "message length"); } })
SCENARIO("identities", 256, [](long it) { mc::at("identity %ld", it); run<S3>(ctx<S3>(masters()[0], mc::filled(it % 90, it), (int)it), text("m"), {filler(77)}, (int)(it % 3), "identity"); })
// the retry rule: H2 forced to the random number itself, all scripts of rejected and accepted draws
static Bytes forty(const N& h) { Bytes b(8, 0); cat(b, rn::sub(h, 1)); return b; }
template <class H> static Hook force2(const std::vector<std::pair<Bytes, Bytes>>& io) { return [io](const Bytes& in, u8* out, size_t n) { const size_t v = H::DIGEST_SIZE; for (auto& p : io) for (u32 ct = 1; (ct - 1) * v < 40; ct++) { Bytes e = p.first; for (int i = 3; i >= 0; i--) e.push_back((u8)(ct >> (8 * i))); if (in == e) { for (size_t i = 0; i < n; i++) out[i] = (ct - 1) * v + i < 40 ? p.second[(ct - 1) * v + i] : 0x33; return true; } } return false; }; }
static Bytes h2in(const N& ks, const N& r, const Bytes& m) { Bytes b = {2}; cat(b, mw(m, gpow(mulm(ks, r, N9())))); return b; }
template <class H> static void retries(long it)
{
    const N n = N9(); const Ctx<H>& c = ctx<H>(masters()[it / 8 % 6], ALICE, 1); Bytes m = {'m', (u8)it}; N r1 = nonces()[it % 8], r2 = nonces()[(it + 3) % 8]; // both rejected
    WithHook h(force2<H>({{h2in(c.ks, r1, m), forty(r1)}, {h2in(c.ks, r2, m), forty(r2)}}));
    std::vector<N> al = words_for(r1); for (auto& w : words_for(r2)) al.push_back(w); al.push_back(word_for(rn::sub(n, r1) == r2 ? small(9) : rn::sub(n, r1))); al.push_back(word_for(mod(filler(51), n)));
    int depth = mc::thorough() ? 4 : 3; long L = al.size(), total = 1; for (int i = 0; i < depth; i++) total *= L; std::vector<bool> rej; for (auto& a : al) rej.push_back(s9::sign<H>(c.ks, c.t2, m, {draw(a, NM1())}).tries < 0); if (!rej[0]) _exit(90);
    for (long s = 0; s < total; s++) {
        bool skip = false, acc = false; for (long v = s, i = 0; i < depth; i++, v /= L) { if (acc && v % L) skip = true; acc = acc || !rej[v % L]; } if (skip) continue;
        std::vector<N> w; for (long v = s, i = 0; i < depth; i++, v /= L) w.push_back(al[v % L]); w.push_back(word_for(mod(filler(52), n))); mc::at("key %ld number %ld script %ld", it / 8 % 6, it % 8, s); mc::tick(); run<H>(c, m, w, (int)(s % 3), "retry script");
    }
    if (it == 9) mc::sample("all scripts of %d draws over %ld words, %s rejected", depth, L, "two numbers in each spelling");
}
SCENARIO("retries", 48, [](long it) { if (it % 3 == 0) retries<H20>(it); else if (it % 3 == 1) retries<H40>(it); else retries<H32>(it); })
SCENARIO("near retries", 8 * 4, [](long it) { const Ctx<H32>& c = ctx<H32>(masters()[it % 4], ALICE, 1); N r = nonces()[it / 4], n = N9(); Bytes m = {'x'}; for (int d = -2; d <= 2; d++) { if (!d) continue; N h = d < 0 ? subm(r, small(-d), n) : addm(r, small(d), n); if (is0(h)) continue; WithHook k(force2<H32>({{h2in(c.ks, r, m), forty(h)}})); mc::at("case %ld off %ld", it, d); run<H32>(c, m, {word_for(r)}, (int)(it % 3), "near retry"); } })
SCENARIO("long retries", 4, [](long it) { const Ctx<H32>& c = ctx<H32>(masters()[it], ALICE, 1); N r = mod(filler(80 + it), N9()); Bytes m = {1}; WithHook k(force2<H32>({{h2in(c.ks, r, m), forty(r)}})); std::vector<N> w(60, word_for(r)); w.push_back(small(12)); mc::at("sixty rejections"); run<H32>(c, m, w, 0, "long retry"); })
// --- verification ----------------------------------------------------------
template <class H> static void judge(const Ctx<H>& c, const Bytes& sig, const Bytes& m, const Bytes& id, int hid, bool want, const char* what)
{
    bool a = Lib<H>::verify(c.p, sig, m, id, hid); mc::state(mc::hashv(mc::hash(sig.data(), sig.size(), 1), mc::hash(m.data(), m.size(), 2), mc::hash(id.data(), id.size(), 3), hid, m.size(), rn::h(c.ks)));
    OK(a == want, want ? "valid signature refused" : "invalid signature accepted", "%s: sig=%s m=%s id=%s hid=%d", what, mc::hex(sig).c_str(), mc::hex(m).c_str(), mc::hex(id).c_str(), hid);
}
template <class H> static Sig9 good(const Ctx<H>& c, const Bytes& m, const N& w) { return s9::sign<H>(c.ks, c.t2, m, {draw(w, NM1())}); }
// every octet of a signature changed in several ways
SCENARIO("changed octets", 3 * 97, [](long it) {
    int f = (int)(it / 97); size_t i = it % 97; const Ctx<S3>& c = ctx<S3>(masters()[0], ALICE, 1); Bytes m = text("Chinese IBS standard"); Sig9 s = good(c, m, filler(7)); Bytes g = encsig(s.h, s.S, f); if (i >= g.size()) return;
    std::vector<int> x; if (i == 32) for (int k = 1; k < 256; k++) x.push_back(k); else { for (int k = 0; k < 8; k++) x.push_back(1 << k); x.push_back(255); x.push_back(g[i] ? g[i] : 1); }
    for (int k : x) { Bytes b = g; b[i] ^= k; mc::at("format %ld octet %ld xor %ld", f, i, k); mc::tick(); bool w = verify<S3>(c.ks, b, m, ALICE, 1); judge<S3>(c, b, m, ALICE, 1, w, "changed octet"); }
})
// every length, truncated or extended
SCENARIO("lengths", 3 * 140, [](long it) {
    int f = (int)(it / 140); size_t n = it % 140; const Ctx<S3>& c = ctx<S3>(masters()[0], ALICE, 1); Bytes m = text("m"); Sig9 s = good(c, m, filler(8)); mc::at("format %ld length %ld", f, n);
    for (int v = 0; v < 3; v++) { Bytes g = encsig(s.h, s.S, f); size_t full = g.size(); g.resize(n, v == 0 ? 0 : v == 1 ? 4 : 0xff); judge<S3>(c, g, m, ALICE, 1, n == full, "length"); }
    for (int first = 0; first < 256; first += n < 33 || n > 36 ? 51 : 1) { Bytes g = encsig(s.h, s.S, f); g.resize(n); if (n > 32) { g[32] = (u8)first; judge<S3>(c, g, m, ALICE, 1, verify<S3>(c.ks, g, m, ALICE, 1), "length and format"); } }
})
// changed message, identity, identifier, key
SCENARIO("changed inputs", 96, [](long it) {
    const Ctx<S3>& c = ctx<S3>(masters()[0], ALICE, 1); Bytes m = mc::filled(it % 24, it); Sig9 s = good(c, m, filler(it)); Bytes g = encsig(s.h, s.S, (int)(it % 3)); N t = c.t2; mc::at("message %ld", it); judge<S3>(c, g, m, ALICE, 1, true, "unchanged");
    for (size_t i = 0; i < m.size(); i++) { Bytes b = m; b[i] ^= 1 << (it + i) % 8; judge<S3>(c, g, b, ALICE, 1, false, "changed message"); } for (size_t i = 0; i < ALICE.size(); i++) for (int k : {1, 0x20, 0x80}) { Bytes b = ALICE; b[i] ^= k; judge<S3>(c, g, m, b, 1, false, "changed identity"); }
    Bytes b = m; b.push_back(0); judge<S3>(c, g, b, ALICE, 1, false, "longer message"); if (m.size()) { b = m; b.pop_back(); judge<S3>(c, g, b, ALICE, 1, false, "shorter message"); } b = ALICE; b.push_back(1); judge<S3>(c, g, m, b, 1, false, "longer identity"); b.pop_back(); b.pop_back(); judge<S3>(c, g, m, b, 1, false, "shorter identity"); judge<S3>(c, g, m, Bytes(), 1, false, "empty identity");
    for (int h = (int)(it % 4); h < 256; h += it < 8 ? 4 : 60) { mc::tick(); judge<S3>(c, g, m, ALICE, h, h == 1, "identifier"); } for (auto& k : masters()) if (k != c.ks) judge<S3>(ctx<S3>(k, ALICE, 1), g, m, ALICE, 1, false, "other master key"); (void)t;
})
// points with known logarithm: multiples of the right point, sums, the generator, negatives
SCENARIO("other points", 24, [](long it) {
    const Ctx<S3>& c = ctx<S3>(masters()[it % 6], ALICE, 1); Bytes m = {(u8)it}; N n = N9(), r = draw(filler(it), NM1()); F12 w = gpow(mulm(c.ks, r, n)); N h = h2<S3>(m, w), s = mulm(subm(r, h, n), c.t2, n); mc::at("case %ld", it);
    std::vector<N> ss = {s, rn::sub(n, s), addm(s, small(1), n), subm(s, small(1), n), addm(s, s, n), small(1), rn::sub(n, 1), c.t2, addm(s, c.t2, n), mulm(r, c.t2, n), mulm(subm(h, r, n), c.t2, n), mulm(addm(r, h, n), c.t2, n)};
    for (size_t i = 0; i < ss.size(); i++) for (int f = 0; f < 3; f++) { if (is0(ss[i])) continue; mc::tick(); Bytes g = encsig(h, sm9c().mulg(ss[i]), f); judge<S3>(c, g, m, ALICE, 1, verify<S3>(c.ks, g, m, ALICE, 1, &ss[i]), "other point"); if ((i == 0) != verify<S3>(c.ks, g, m, ALICE, 1, &ss[i]) && ss[i] != s) mc::fail("reference", "a forged point verifies"); }
})
// h at its limits: valid when H2 is forced to that value, refused out of range; h + N in the same signature
template <class H> static void hedge(long it)
{
    const Ctx<H>& c = ctx<H>(masters()[it % 6], ALICE, 1); const N n = N9(); Bytes m = {(u8)it, 5}; N r = draw(filler(it + 90), NM1()); std::vector<N> hs = {small(1), small(2), rn::sub(n, 1), rn::sub(n, 2), small(255), pow2(254), mod(filler(it), n), rn::sub(rn::sub(zero(), n), 1)};
    N h = mod(hs[it / 6], n); if (is0(h)) h = small(3); WithHook k(force2<H>({{h2in(c.ks, r, m), forty(h)}})); N s = mulm(subm(r, h, n), c.t2, n); if (is0(s)) return; Pt S = sm9c().mulg(s); mc::at("case %ld", it);
    for (int f = 0; f < 3; f++) { judge<H>(c, encsig(h, S, f), m, ALICE, 1, true, "forced value"); int cy; N x = rn::add(h, n, &cy); if (!cy) judge<H>(c, encsig(x, S, f), m, ALICE, 1, false, "h plus N"); for (auto& v : {zero(), n, rn::add(n, 1), rn::sub(zero(), 1), rn::sub(n, h), rn::add(h, 1), rn::sub(h, 1), addm(h, rn::sub(n, 1), n)}) { Bytes g = encsig(v, S, f); judge<H>(c, g, m, ALICE, 1, v == h || verify<H>(c.ks, g, m, ALICE, 1, &s), "h out of range or different"); } }
}
SCENARIO("h edges", 48, [](long it) { hedge<H32>(it); hedge<H40>(it); })
// the final comparison: everything fits except that the recomputed value differs from h in one bit, one octet, a word or by an arrangement of octets
template <class H> static void compare(long it)
{
    const Ctx<H>& c = ctx<H>(masters()[it % 6], ALICE, 1); const N n = N9(); Bytes m = {(u8)it, 9}; N h = mod(filler(it / 2 + 500), n), s = mod(filler(it + 600), n); if (it % 4 == 3) h = pow2(128); Pt S = sm9c().mulg(s); Bytes in = {2}; cat(in, mw(m, gpow(addm(mulm(s, addm(h1<H>(ALICE, 1), c.ks, n), n), mulm(c.ks, h, n), n)))); Bytes g = encsig(h, S, (int)(it % 3));
    long i = 0, step = mc::thorough() ? 1 : 2; for (auto& v : sm2r::altered(h)) { if (v != h && i++ % step != it / 6 % step) continue; if (is0(v) || !(v < n)) continue; mc::at("case %ld alteration %ld", it, i); mc::tick(); WithHook k(force2<H>({{in, forty(v)}})); judge<H>(c, g, m, ALICE, 1, v == h, "final comparison"); }
}
SCENARIO("final comparison", [] { return mc::thorough() ? 48L : 12L; }, [](long it) { if (it % 2) compare<H40>(it); else compare<H32>(it); })
// h = 0 and h = N with everything else made to fit: w' = e(S,P), and the hash forced to any value
SCENARIO("h zero", 36, [](long it) {
    const Ctx<H32>& c = ctx<H32>(masters()[it % 6], ALICE, 1); const N n = N9(); Bytes m = {(u8)it, 6}; N r = draw(filler(it + 90), NM1()); N s = mulm(r, c.t2, n); Pt S = sm9c().mulg(s); mc::at("case %ld", it);
    Bytes o(40, 0); if (it / 6 == 1) o = forty(n); if (it / 6 == 2) o = Bytes(40, 255); if (it / 6 == 3) { N x = NM1(); o = Bytes(8, 0); cat(o, x); } if (it / 6 == 4) o = forty(small(2)); WithHook k(force2<H32>({{h2in(c.ks, r, m), o}})); for (auto& v : {zero(), n, rn::sub(zero(), 1)}) for (int f = 0; f < 3; f++) judge<H32>(c, encsig(v, S, f), m, ALICE, 1, false, "h outside 1..N-1");
})
// points that are not canonically encoded: coordinates plus p, wrong parity, off the curve
SCENARIO("non-canonical", 64, [](long it) {
    const Ctx<S3>& c = ctx<S3>(masters()[0], ALICE, 1); Bytes m = {(u8)it, 7}; const N p = P9(); Sig9 s = good(c, m, filler(it + 300)); mc::at("case %ld", it);
    for (int f = 0; f < 3; f++) { Bytes g = encsig(s.h, s.S, f); judge<S3>(c, g, m, ALICE, 1, true, "canonical"); int cx, cy; N x = rn::add(s.S.x, p, &cx), y = rn::add(s.S.y, p, &cy); if (!cx) { Bytes b = g; rn::put(&b[33], x); judge<S3>(c, b, m, ALICE, 1, false, "x plus p"); b[32] ^= 1; judge<S3>(c, b, m, ALICE, 1, false, "x plus p"); if (f == UNC) b[32] = 4; if (f != COM && !cy) { rn::put(&b[65], y); judge<S3>(c, b, m, ALICE, 1, false, "x and y plus p"); } } if (f != COM && !cy) { Bytes b = g; rn::put(&b[65], y); judge<S3>(c, b, m, ALICE, 1, false, "y plus p"); b[32] ^= 1; judge<S3>(c, b, m, ALICE, 1, false, "y plus p"); }
      if (f != UNC) { Bytes b = g; b[32] ^= 1; judge<S3>(c, b, m, ALICE, 1, false, "wrong parity"); } if (f != COM) { Bytes b = g; rn::put(&b[65], fn(s.S.y)); judge<S3>(c, b, m, ALICE, 1, false, "negative point"); for (int k = 0; k < 256; k++) { b = g; b[32] = (u8)k; judge<S3>(c, b, m, ALICE, 1, k == 4 || k == 6 + (int)(s.S.y.w[0] & 1), "format octet"); } std::swap_ranges(g.begin() + 33, g.begin() + 65, g.begin() + 65); judge<S3>(c, g, m, ALICE, 1, false, "swapped coordinates"); } }
    // signatures whose point has tiny coordinates: x, x+p and the root chosen by parity
    { N y; u64 x = it; while (!sm9c().lift(y, small(x), it & 1)) x += 64; Pt S = pt(small(x), y); Bytes h = rn::bytes(mod(filler(it), N9())); for (auto& v : {small(x), rn::add(small(x), p)}) for (int k = 0; k < 8; k++) { Bytes b = h; b.push_back((u8)k); cat(b, v); if (k >= 4) cat(b, y); judge<S3>(c, b, m, ALICE, 1, false, "small point"); } }
})
// [h1]P2 + Ppub exceptional: infinity (refused, not a crash), doubling (valid), and neighbours
SCENARIO("exceptional sum", 6 * 8, [](long it) {
    N ks = masters()[it / 8], n = N9(); long d = it % 8; N t = d == 0 ? rn::sub(n, ks) : d == 1 ? ks : d == 2 ? addm(rn::sub(n, ks), small(1), n) : d == 3 ? subm(rn::sub(n, ks), small(1), n) : d == 4 ? addm(ks, small(1), n) : d == 5 ? small(1) : d == 6 ? rn::sub(n, 1) : subm(rn::sub(n, ks), ks, n); if (is0(t)) return; Bytes in = {1}; cat(in, idh(ALICE, 1)); Bytes m = {8, (u8)it}; mc::at("key %ld case %ld", it / 8, d);
    WithHook k(force2<H32>({{in, forty(t)}})); N u = user<H32>(ks, ALICE, 1), a = addm(t, ks, n); u8 b[32]; rn::put(b, ks); Lib<H32>::M M(b); Ctx<H32> c; c.ks = ks; c.id = ALICE; c.hid = 1; c.m = M; c.p = M.fetch_SignPublicKey();
    if (is0(a)) { for (int f = 0; f < 3; f++) for (u64 i = 1; i < 5; i++) { N r = draw(filler(i), NM1()), h = h2<H32>(m, gpow(mulm(ks, r, n))); judge<H32>(c, encsig(h, sm9c().mulg(mod(filler(i), n)), f), m, ALICE, 1, false, "identity without key"); // also w' = g^h alone, the value with e(S, infinity) = 1
        N h3 = mod(filler(i + 20), n); Bytes wi = {2}; cat(wi, mw(m, gpow(mulm(ks, h3, n)))); WithHook k2(force2<H32>({{in, forty(t)}, {wi, forty(h3)}})); judge<H32>(c, encsig(h3, sm9c().g, f), m, ALICE, 1, false, "forgery for an identity without key"); } return; }
    c.t2 = u; c.k = Lib<H32>::extract(M, ALICE, 1); for (int f = 0; f < 3; f++) { run<H32>(c, m, {filler(it)}, f, "exceptional sum"); Sig9 s = good(c, m, filler(it)); Bytes g = encsig(s.h, s.S, f); g[40] ^= 1; judge<H32>(c, g, m, ALICE, 1, verify<H32>(ks, g, m, ALICE, 1), "exceptional sum, changed"); }
})
// histories: signing and verifying interleaved on the same objects in every order
SCENARIO("interleaved", 6 * 6, [](long it) {
    typedef Lib<S3> L; const Ctx<S3>&a = ctx<S3>(masters()[0], ALICE, 1), &b = ctx<S3>(masters()[5], text("Bob"), 3); Bytes m1 = {1, 2, 3}, m2 = mc::filled(130, 4); Sig9 s1 = good(a, m1, filler(1)), s2 = good(b, m2, filler(2)); Bytes g1 = encsig(s1.h, s1.S, UNC), g2 = encsig(s2.h, s2.S, COM); int depth = mc::thorough() ? 5 : 3; long total = 1; for (int i = 2; i < depth; i++) total *= 6;
    for (long s = 0; s < total; s++) { long v = s * 36 + it; for (int i = 0; i < depth; i++, v /= 6) { mc::at("history %ld step %ld", s * 36 + it, i); mc::tick(); mc::trans(); mc::state(mc::hashv(9, s * 36 + it, i)); ScriptRng r; switch (v % 6) {
        case 0: r.push(filler(1)); OK(L::sign(a.k, m1, r, UNC) == g1, "history", "signature A"); break; case 1: r.push(filler(2)); OK(L::sign(b.k, m2, r, COM) == g2, "history", "signature B"); break;
        case 2: OK(L::verify(a.k, g1, m1, ALICE, 1), "history", "A by its key"); break; case 3: OK(!L::verify(b.p, g1, m1, ALICE, 1), "history", "A under the key of B"); break; case 4: { Bytes x = g2; x[5] ^= 2; OK(!L::verify(b.p, x, m2, text("Bob"), 3), "history", "changed B"); break; } default: OK(L::verify(b.p, g2, m2, text("Bob"), 3), "history", "B"); } } mc::trace(); }
})
// messages and identities of any length up to beyond 2^32 octets
SCENARIO("long inputs", [] { return lng::nlens(); }, [](long it) {
    typedef lng::SparseHash<32> H; typedef Lib<H> L; const N q = N9(); size_t n = lng::len(it).n(), il = it % 4 == 3 ? n : 5, ml = it % 4 == 3 ? (it % 8 == 3 ? 9 : n) : n; const u8 *p = lng::data() + it % 91, *id = lng::data() + 777; N ks = masters()[3 * (it % 2)]; static std::map<int, typename L::M> ms; auto f = ms.find(it % 2); if (f == ms.end()) { u8 kb[32]; rn::put(kb, ks); f = ms.emplace(it % 2, typename L::M(kb)).first; }
    mc::at("message of %ld octets, identity of %ld", ml, il); ScriptRng r0; auto k = f->second.gen_SignPrivateKey(id, il, r0); auto pk = f->second.fetch_SignPublicKey(); N t2 = mulm(ks, invm(addm(hnl(32, 1, {{id, il}, Bytes{1}}), ks, q), q), q), r = draw(filler(it + 700), NM1()); Bytes w = enc(gpow(mulm(ks, r, q))); N h = hnl(32, 2, {{p, ml}, w}), l = subm(r, h, q); if (is0(l)) _exit(90);
    int fmt = (int)(it % 3); Bytes want = encsig(h, sm9c().mulg(mulm(l, t2, q)), fmt), got(97); size_t gl = 0; ScriptRng g; g.push(filler(it + 700)); k.sign(got.data(), &gl, p, ml, g, (::sm9::SM9EcPC)fmt); got.resize(gl < 97 ? gl : 97); mc::eval(); mc::trace(); mc::state(mc::hashv(0x80, ml, il)); OK(got == want, "signature", "message of %zu octets, identity of %zu: got %s, the standard gives %s", ml, il, mc::hex(got).c_str(), mc::hex(want).c_str());
    auto one = [&](const u8* m, size_t n2, const u8* i, size_t i2, bool ok, const char* what) { mc::at("signed %ld, %ld; presented %ld, %ld", ml, il, n2, i2); mc::tick(); mc::eval(); OK(pk.verify(want.data(), want.size(), m, n2, i, i2) == ok && (n2 % 2 || k.verify(want.data(), want.size(), m, n2, i, i2) == ok), ok ? "valid signature refused" : "invalid signature accepted", "%s: signed a message of %zu octets for an identity of %zu, presented %zu and %zu", what, ml, il, n2, i2); };
    one(p, ml, id, il, true, "long"); one(p + 1, ml, id, il, false, "other message"); one(p, ml, id + 1, il, false, "other identity"); for (size_t x : {ml - 1, ml + 1, ml & 0xffff, ml & 0x7fffffff, ml & 0xffffffff}) if (x != ml) one(p, x, id, il, false, "other message length"); for (size_t x : {il - 1, il + 1, il & 0xffff, il & 0x7fffffff, il & 0xffffffff}) if (x != il) one(p, ml, id, x, false, "other identity length"); })
// the example of the standard
SCENARIO("standard example", 1, [](long) {
    mc::at("example"); N ks = rn::hex("0130E78459D78545CB54C587E02CF480CE0B66340F319F348A1D5B1F2DC5F4"), r = rn::hex("033C8616B06704813203DFD00965022ED15975C662337AED648835DC4B1CBE"); Bytes m = text("Chinese IBS standard"); N h = h2<S3>(m, gpow(mulm(ks, r, N9())));
    if (h != rn::hex("823C4B21E4BD2DFE1ED92C606653E996668563152FC33F55D7BFBB9BD9705ADB")) { fprintf(stderr, "reference disagrees with the example of GB/T 38635.2\n"); _exit(90); } run<S3>(ctx<S3>(ks, ALICE, 1), m, {word_for(r)}, UNC, "standard example");
})
// very many signatures and verifications by one object
SCENARIO("many", 8, [](long pat) {
    typedef Lib<S3> L; const Ctx<S3>& c = ctx<S3>(masters()[0], ALICE, 1); const long n = mc::thorough() ? 17000 : 1100; struct V { Bytes m, sg, bad; N w; int f; }; std::vector<V> v; for (int i = 0; i < 6; i++) { V x; x.m = mc::filled(i * 17, i); x.w = filler(300 + i); x.f = i % 3; Sig9 s = good(c, x.m, x.w); x.sg = encsig(s.h, s.S, x.f); x.bad = x.sg; x.bad[i * 5] ^= 1; v.push_back(x); } Bytes key = L::key(c.k);
    for (long j = 0; j < n; j++) { const V& x = v[pat == 0 || pat == 2 ? 4 : j % 6]; if (j % 20 == 0) { mc::at("pattern %ld operation %ld", pat, j); mc::tick(); } mc::eval(); mc::trans();
        if (pat < 2 || (pat == 5 && j % 3 == 0)) { ScriptRng r; r.push(x.w); OK(L::sign(c.k, x.m, r, x.f) == x.sg, "many", "signature %ld by one object differs from the standard's", j); }
        else if (pat < 6) { bool bad = pat == 3 ? j % 100 != 99 : pat == 4 || pat == 5 ? j % 2 : false; bool got = j % 4 < 2 ? L::verify(c.p, bad ? x.bad : x.sg, x.m, ALICE, 1) : L::verify(c.k, bad ? x.bad : x.sg, x.m, ALICE, 1); OK(got == !bad, bad ? "invalid signature accepted" : "valid signature refused", "verification %ld by one object (pattern %ld)", j, pat); }
        else if (pat == 6) { ScriptRng r; if (j % 4 == 3) { r.push(x.w); OK(L::sign(c.k, x.m, r, x.f) == x.sg, "many", "signature %ld by one object differs from the standard's", j); } else { bool t = false; u8 o[97]; size_t l; try { c.k.sign(o, &l, x.m.data(), x.m.size(), r, (::sm9::SM9EcPC)x.f); } catch (RanOut&) { t = true; } OK(t, "many", "signing %ld without random numbers returns", j); } }
        else { typename L::K k = L::extract(c.m, j % 2 ? ALICE : text("Bob"), 1); if (j % 2) OK(L::key(k) == key, "many", "extraction %ld by one master key gives another key", j); } }
    mc::trace(); mc::state(mc::hashv(0x4d, pat)); })
MC_MAIN
