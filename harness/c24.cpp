// C24: SM9 master keys, public keys and user keys.
#include "sm9ref.h"
#include "longsm.h"
using namespace s9;
typedef sm3::SM3 S3; typedef ForcedHash<32> H32; typedef ForcedHash<20> H20; typedef ForcedHash<40> H40; typedef ForcedHash<48, 128> H48; typedef ForcedHash<64, 128> H64; typedef ForcedHash<1, 16> H1b;
#define OK(cond, key, ...) do { if (!(cond)) mc::fail(key, __VA_ARGS__); } while (0)
static Bytes text(const char* s) { return Bytes(s, s + strlen(s)); }
static std::vector<N> scalars()
{
    std::vector<N> v; const N n = N9(), z = zero(); int w = mc::thorough() ? 60 : 12; neighbours(v, small(w), w); neighbours(v, n, w); neighbours(v, rn::sub(z, 1 + w), w); neighbours(v, P9(), 3);
    for (int i = 0; i < 256; i += mc::thorough() ? 1 : 5) { v.push_back(pow2(i)); v.push_back(rn::sub(pow2(i), 1)); v.push_back(rn::sub(n, pow2(i))); v.push_back(rn::sub(z, pow2(i))); v.push_back(rn::add(n, pow2(i))); }
    u64 q[5]; for (u64 d : {2, 3}) { modw(n.w, 4, small(d), q); N t; memcpy(t.w, q, 32); neighbours(v, t, 2); } for (int i = 0; i < 10; i++) v.push_back(filler(i + 3)); uniq(v); return v;
}
static const std::vector<N>& SCV() { static std::vector<N> v = scalars(); return v; }
static const Bytes MSG = text("message"), ALICE = text("Alice");
// what an object derived from a master scalar must do
template <class H> static void check_key(const typename Lib<H>::K& k, const N& ks, const N& t2, const char* what)
{
    typedef Lib<H> L; Bytes w; { Pt d = sm9c().mulg(t2); cat(w, d.x); cat(w, d.y); } cat(w, pubbytes(tw().mulg(ks))); Bytes got = L::key(k); mc::eval();
    OK(got == w, "user key", "%s: ks=%s t2=%s: got %s want %s", what, rn::str(ks).c_str(), rn::str(t2).c_str(), mc::hex(got).c_str(), mc::hex(w).c_str()); OK(L::pub(k.fetch_pub()) == Bytes(w.begin() + 64, w.end()), "public key", "%s: fetch_pub", what);
    N r = filler(91); ScriptRng g; g.push(word_for(mod(r, NM1()))); N rr = draw(g.words[0].size() ? rn::get(&g.words[0][0]) : zero(), NM1()); auto s = s9::sign<H>(ks, t2, MSG, {rr}); if (s.tries < 0) return;
    Bytes sg = L::sign(k, MSG, g, UNC); OK(sg == encsig(s.h, s.S, UNC), "signature", "%s: ks=%s: the key signs differently", what, rn::str(ks).c_str());
}
template <class H> static void check_master(const typename Lib<H>::M& m, const N& ks, const char* what, bool deep)
{
    typedef Lib<H> L; mc::eval(); OK(L::priv(m) == rn::bytes(ks), "master key", "%s: %s reads back %s", what, rn::str(ks).c_str(), mc::hex(L::priv(m)).c_str()); Bytes p = pubbytes(tw().mulg(ks)), g = L::pub(m.fetch_SignPublicKey()); OK(g == p, "public key", "%s: ks=%s: got %s want %s", what, rn::str(ks).c_str(), mc::hex(g).c_str(), mc::hex(p).c_str());
    if (!deep) return; N t2 = user<H>(ks, ALICE, 1); if (is0(t2)) return; check_key<H>(L::extract(m, ALICE, 1), ks, t2, what); OK(L::priv(m) == rn::bytes(ks), "master key", "%s: extraction changed the master key", what);
}
SCENARIO("master import", [] { return (long)SCV().size(); }, [](long it) {
    typedef Lib<S3> L; const N& x = SCV()[it]; bool good = !is0(x) && x < N9(); mc::Tight t(32); t.set(rn::bytes(x)); t.g.ro(true); N old = filler(61); u8 ob[32]; rn::put(ob, old);
    for (int mode = 0; mode < 3; mode++) { // constructor, fresh object, used object
        mc::at("scalar %ld mode %ld", it, mode); mc::state(mc::hashv(1, rn::h(x), mode)); bool thrown = false;
        if (mode == 0) { try { L::M m(t.p); check_master<S3>(m, x, "constructor", good); } catch (std::exception&) { thrown = true; } }
        else { L::M m; if (mode == 2) m.set_priv(ob); try { m.set_priv(t.p); } catch (std::exception&) { thrown = true; } if (!thrown && good) check_master<S3>(m, x, "set_priv", mode == 2); if (thrown && mode == 2) { check_master<S3>(m, old, "after a refused key", true); } }
        mc::eval(); OK(thrown == !good, good ? "valid key refused" : "invalid key accepted", "%s", rn::str(x).c_str());
    }
})
SCENARIO("generate", [] { return (long)SCV().size(); }, [](long it) {
    typedef Lib<S3> L; const N& x = SCV()[it]; N ks = draw(x, NM1()); ScriptRng r; r.push(x); mc::at("word %ld", it); mc::state(mc::hashv(2, rn::h(x)));
    L::M m; m.gen_priv(r); OK(r.asked == 32, "draws", "%zu random bytes", r.asked); check_master<S3>(m, ks, "gen_priv", true); r.restart(); L::M c(r); check_master<S3>(c, ks, "constructor", false);
    u8 kb[32]; rn::put(kb, ks); L::M i(kb); check_master<S3>(i, ks, "import of the generated key", false);
    // a failing generator leaves the object alone
    ScriptRng e; bool thrown = false; try { m.gen_priv(e); } catch (RanOut&) { thrown = true; } OK(thrown, "rng failure", "the exception of the generator was lost"); check_master<S3>(m, ks, "after a failed generation", false);
})
// --- public keys -----------------------------------------------------------
static Bytes P2B(const N& k) { return pubbytes(tw().mulg(k)); }
static bool onq(const Bytes& b) { for (int i = 0; i < 4; i++) if (!(rn::get(&b[32 * i]) < P9())) return false; return tw().on(p2(dec2(&b[0]), dec2(&b[64]))); }
static std::vector<Bytes> variants(const Bytes& g, int words)
{   // each word: neighbours, zero, p, plus p when it fits, complement, swapped words, all bit flips
    std::vector<Bytes> v = {g}; auto put = [&](int w, const N& x) { Bytes b = g; rn::put(&b[32 * w], x); v.push_back(b); };
    for (int w = 0; w < words; w++) { N x = rn::get(&g[32 * w]); int c; N y = rn::add(x, P9(), &c); if (!c) put(w, y); for (auto& k : {rn::add(x, 1), rn::sub(x, 1), zero(), P9(), rn::sub(P9(), 1), rn::add(P9(), 1), rn::sub(zero(), 1), rn::sub(P9(), x), small(1)}) put(w, k); for (int o = w + 1; o < words; o++) { Bytes b = g; std::swap_ranges(b.begin() + 32 * w, b.begin() + 32 * w + 32, b.begin() + 32 * o); v.push_back(b); } }
    int half = words / 2; { Bytes b = g; for (int w = half; w < words; w++) rn::put(&b[32 * w], fn(rn::get(&g[32 * w]))); v.push_back(b); } // the negative point
    { Bytes b = g; for (int w = 0; w < words; w++) { int c; N y = rn::add(rn::get(&g[32 * w]), P9(), &c); if (!c) rn::put(&b[32 * w], y); } v.push_back(b); } v.push_back(Bytes(words * 32, 0)); v.push_back(Bytes(words * 32, 255));
    for (size_t i = 0; i < g.size() * 8; i++) { Bytes b = g; b[i / 8] ^= 1 << i % 8; v.push_back(b); }
    return v;
}
static const std::vector<Bytes>& pubs()
{
    static std::vector<Bytes> v; if (!v.empty()) return v; for (auto& k : {small(1), small(2), rn::sub(N9(), 1), filler(71)}) v.push_back(P2B(mod(k, N9())));
    F2 y; int n = 0; for (u64 x = 0; n < 6; x++) { F2 e = x % 3 == 0 ? f2(x) : x % 3 == 1 ? f2(0, x) : f2(x, 1); if (lift2(y, e)) { v.push_back(pubbytes(p2(e, y))); n++; } } return v;
}
SCENARIO("public import", [] { return (long)pubs().size() * 4; }, [](long it) {
    typedef Lib<S3> L; N old = filler(62); Bytes ob = P2B(mod(old, N9())); std::vector<Bytes> V = variants(pubs()[it / 4], 4); static L::P used = [&] { L::P p; p.set_pub(&ob[0], &ob[64]); return p; }(); mc::Tight a(64), b(64);
    for (size_t i = it % 4; i < V.size(); i += 4) {
        const Bytes& v = V[i]; bool good = onq(v); mc::at("point %ld variant %ld", it / 4, i); mc::tick(); mc::state(mc::hash(v.data(), v.size(), 3)); mc::eval(); a.g.ro(false); b.g.ro(false); a.set(Bytes(v.begin(), v.begin() + 64)); b.set(Bytes(v.begin() + 64, v.end())); a.g.ro(true); b.g.ro(true); L::P p = used; bool thrown = false; try { p.set_pub(a.p, b.p); } catch (std::exception&) { thrown = true; }
        OK(thrown == !good, good ? "valid point refused" : "invalid point accepted", "%s", mc::hex(v).c_str()); Bytes g = L::pub(p); OK(g == (thrown ? ob : v), thrown ? "refused point" : "public key", "%s: reads back %s", mc::hex(v).c_str(), mc::hex(g).c_str());
        if (thrown && memcmp((void*)&p, (void*)&used, sizeof p)) { static Bytes sg = [&] { u8 kb[32]; rn::put(kb, mod(old, N9())); L::M m(kb); ScriptRng r; r.push(filler(92)); return L::sign(L::extract(m, ALICE, 1), MSG, r, UNC); }(); OK(L::verify(p, sg, MSG, ALICE, 1), "refused point", "%s: a refused point changed what the object verifies", mc::hex(v).c_str()); }
    }
    if (it == 1) mc::sample("%zu variants of each of %zu public keys, every bit flip among them", V.size(), pubs().size());
})
// --- user keys -------------------------------------------------------------
static bool ong(const Bytes& b) { N x = rn::get(&b[0]), y = rn::get(&b[32]); return x < P9() && y < P9() && sm9c().on(pt(x, y)); }
SCENARIO("user import", 8 * 8, [](long it) {
    typedef Lib<S3> L; N ks = mod(filler(63), N9()), t2 = user<S3>(ks, ALICE, 1); Bytes g; Pt d = it / 8 == 0 ? sm9c().g : it / 8 == 1 ? sm9c().mulg(t2) : Pt(); if (it / 8 > 1) { int n = 0; N y; for (u64 x = 0;; x++) if (sm9c().lift(y, small(x), x & 1) && n++ == it / 8 - 2) { d = pt(small(x), y); break; } } cat(g, d.x); cat(g, d.y);
    std::vector<Bytes> V = variants(g, 2); Bytes pg = P2B(ks), pb = pg; pb[100] ^= 4; Bytes pn = pg; rn::put(&pn[0], rn::sub(zero(), 1)); std::vector<Bytes> PB = {pg, pb, pn}; u8 kb[32]; rn::put(kb, ks); L::M m(kb); L::K used = L::extract(m, text("Bob"), 1); Bytes ub = L::key(used); mc::Tight a(32), b(32);
    for (size_t i = it % 8; i < V.size(); i += 8) for (size_t j = 0; j < PB.size(); j++) {
        const Bytes &v = V[i], &q = PB[j]; bool good = ong(v) && onq(q); if (j && i > 60) continue; mc::at("point %ld variant %ld public key %ld", it / 8, i, j); mc::tick(); mc::state(mc::hash(v.data(), v.size(), j)); mc::eval(); a.set(Bytes(v.begin(), v.begin() + 32)); b.set(Bytes(v.begin() + 32, v.end())); L::K k = used; bool thrown = false; try { k.set_priv(a.p, b.p, &q[0], &q[64]); } catch (std::exception&) { thrown = true; }
        Bytes w = v; cat(w, q); OK(thrown == !good, good ? "valid key refused" : "invalid key accepted", "%s", mc::hex(w).c_str()); Bytes x = L::key(k); OK(x == (thrown ? ub : w), thrown ? "refused key" : "user key", "%s: reads back %s", mc::hex(w).c_str(), mc::hex(x).c_str());
        if (thrown && memcmp((void*)&k, (void*)&used, sizeof k)) { Bytes sg[2]; for (int t = 0; t < 2; t++) { ScriptRng r; r.push(filler(92)); r.push(filler(93)); sg[t] = L::sign(t ? k : used, MSG, r, UNC); } OK(sg[0] == sg[1], "refused key", "%s: a refused key changed how the object signs", mc::hex(w).c_str()); }
    }
})
template <class H> static void extract_case(const N& ks, const Bytes& id, int hid, bool deep)
{
    typedef Lib<H> L; u8 kb[32]; rn::put(kb, ks); static std::map<u64, typename L::M> cache; auto f = cache.find(rn::h(ks)); if (f == cache.end()) f = cache.emplace(rn::h(ks), typename L::M(kb)).first; const typename L::M& m = f->second; N t2 = user<H>(ks, id, hid); mc::eval(); mc::tick(); mc::state(mc::hashv(4, rn::h(ks), mc::hash(id.data(), id.size()), hid, H::DIGEST_SIZE)); bool thrown = false; typename L::K k;
    try { k = L::extract(m, id, hid); } catch (std::exception&) { thrown = true; }
    OK(thrown == is0(t2), thrown ? "extraction refused" : "undefined key", "ks=%s id of %zu bytes hid=%d", rn::str(ks).c_str(), id.size(), hid); OK(L::priv(m) == rn::bytes(ks), "master key", "extraction changed the master key"); if (thrown) return;
    Pt d = sm9c().mulg(t2); Bytes w = rn::bytes(d.x); cat(w, d.y); Bytes g = L::key(k); g.resize(64); OK(g == w, "user key", "ks=%s id=%s hid=%d digest=%zu: got %s want %s", rn::str(ks).c_str(), mc::hex(id).c_str(), hid, (size_t)H::DIGEST_SIZE, mc::hex(g).c_str(), mc::hex(w).c_str()); if (deep) check_key<H>(k, ks, t2, "extraction");
}
static std::vector<N> masters() { std::vector<N> v = {small(1), small(2), rn::sub(N9(), 1), filler(64), filler(65), pow2(254)}; for (auto& x : v) x = mod(x, N9()); return v; }
template <class H> static void identities(long it) { std::vector<N> M = masters(); for (size_t i = 0; i < M.size(); i++) { mc::at("length %ld key %ld", it, i); extract_case<H>(M[i], mc::filled(it, it * 7 + i), (int)(it * 5 + i) & 255, it % 16 == 0); Bytes z(it, 0), o(it, 255); extract_case<H>(M[i], z, 1, false); extract_case<H>(M[i], o, 255, false); } }
SCENARIO("identities SM3", [] { return mc::thorough() ? 600L : 200L; }, [](long it) { identities<S3>(it); })
SCENARIO("identities 20", 96, [](long it) { identities<H20>(it); })
SCENARIO("identities 32", 96, [](long it) { identities<H32>(it); })
SCENARIO("identities 40", 96, [](long it) { identities<H40>(it); })
SCENARIO("identities 48", 160, [](long it) { identities<H48>(it); })
SCENARIO("identities 64", 160, [](long it) { identities<H64>(it); })
SCENARIO("identities 1", 40, [](long it) { identities<H1b>(it); })
SCENARIO("hid", 256, [](long it) { for (auto& k : masters()) for (auto id : {ALICE, Bytes(), mc::filled(60, 2)}) extract_case<S3>(k, id, (int)it, it % 8 == 1); Bytes a = ALICE; a.push_back((u8)it); extract_case<S3>(masters()[3], a, 1, false); extract_case<S3>(masters()[3], ALICE, (int)it, false); })
// forced 40-octet hash values around the undefined case and around multiples of N-1
static Bytes wide(const N& v, u64 mult) { u64 t[5], one[1] = {mult}; u64 p[8]; N m = NM1(); mulw(p, m.w, 4, one, 1); memcpy(t, p, 40); u64 x[5] = {v.w[0], v.w[1], v.w[2], v.w[3], 0}; addw(t, t, x, 5); Bytes b(40); for (int i = 0; i < 40; i++) b[39 - i] = (u8)(t[i / 8] >> (8 * (i % 8))); return b; }
template <class H> static void forced(const N& ks, const Bytes& ha, long what)
{
    const size_t v = H::DIGEST_SIZE; Bytes z = idh(ALICE, 7); WithHook h([&](const Bytes& in, u8* out, size_t n) { for (u32 ct = 1; (ct - 1) * v < 40; ct++) if (in == hin(1, z, ct)) { for (size_t i = 0; i < n; i++) out[i] = (ct - 1) * v + i < 40 ? ha[(ct - 1) * v + i] : 0x5c; return true; } return false; });
    mc::at("value %ld", what); extract_case<H>(ks, ALICE, 7, false);
}
SCENARIO("forced", 6 * 16, [](long it) {
    static std::vector<u64> mult = {0, 1, 2, 3, 0x100, 0xffffffffull, 0x100000000ull, 0x8000000000000000ull, 0xfffffffffffffffeull, 0xffffffffffffffffull, 0x16745ab2ull, 7, 0x5555555555555555ull, 0xaaaaaaaaaaaaaaabull, 0x7fffffffffffffffull, 0xfedcba9876543210ull};
    N ks = masters()[it / 16]; u64 mu = mult[it % 16]; N target = rn::sub(rn::sub(N9(), ks), 1); std::vector<N> vs; for (int d = -2; d <= 2; d++) vs.push_back(d < 0 ? rn::sub(target, -d) : rn::add(target, d)); for (auto& x : {zero(), small(1), rn::sub(NM1(), 1), NM1(), N9(), rn::sub(ks, 1)}) vs.push_back(x);
    for (size_t i = 0; i < vs.size(); i++) { if (bits(vs[i]) > 256 || (mu == ~0ull && bits(vs[i]) == 256 && !(vs[i] < N9()))) continue; Bytes ha = wide(mod(vs[i], N9()), mu); forced<H20>(ks, ha, i); forced<H32>(ks, ha, i); forced<H40>(ks, ha, i); forced<H48>(ks, ha, i); forced<H64>(ks, ha, i); }
    if (it == 17) mc::sample("H1 forced next to -ks, 0 and N-1 plus %llu(N-1) for 5 digest sizes", (unsigned long long)mu);
})
// --- histories of one object -----------------------------------------------
// alphabet: import of two keys, a refused import, generation, failed generation; every sequence up to a depth; the object then behaves as a fresh one
SCENARIO("master history", 6 * 6, [](long it) {
    typedef Lib<S3> L; N k1 = masters()[3], k2 = small(2); int depth = mc::thorough() ? 5 : 4; long total = 1; for (int i = 2; i < depth; i++) total *= 6;
    for (long s = 0; s < total; s++) { L::M m; N cur = zero(); long v = s * 36 + it; for (int i = 0; i < depth; i++, v /= 6) {
        mc::at("history %ld step %ld", s * 36 + it, i); mc::tick(); mc::trans(); u8 b[32]; int op = (int)(v % 6); bool thrown = false; ScriptRng r; 
        try { if (op == 0) { rn::put(b, k1); m.set_priv(b); cur = k1; } else if (op == 1) { rn::put(b, k2); m.set_priv(b); cur = k2; } else if (op == 2) { rn::put(b, N9()); m.set_priv(b); } else if (op == 3) { memset(b, 0, 32); m.set_priv(b); } else if (op == 4) { r.push(filler(67)); m.gen_priv(r); cur = draw(filler(67), NM1()); } else m.gen_priv(r); } catch (std::exception&) { thrown = true; } catch (RanOut&) { thrown = true; }
        OK(thrown == (op == 2 || op == 3 || op == 5), "exception", "operation %d", op); mc::state(mc::hashv(5, s * 36 + it, i)); if (!is0(cur)) check_master<S3>(m, cur, "history", false); }
        mc::trace(); if (!is0(cur)) check_master<S3>(m, cur, "history", true); }
})
SCENARIO("user history", 25, [](long it) {
    typedef Lib<S3> L; N ks = masters()[3], ks2 = masters()[4]; u8 b[32]; rn::put(b, ks); L::M m1(b); rn::put(b, ks2); L::M m2(b); Bytes ka = L::key(L::extract(m1, ALICE, 1)), kb = L::key(L::extract(m2, text("Bob"), 3)), bad1 = ka, bad2 = kb; bad1[40] ^= 1; bad2[190] ^= 1;
    N ta = user<S3>(ks, ALICE, 1), tb = user<S3>(ks2, text("Bob"), 3); std::vector<Bytes> ops = {ka, kb, bad1, bad2, Bytes()}; int depth = mc::thorough() ? 4 : 3; long total = 1; for (int i = 2; i < depth; i++) total *= 5;
    for (long s = 0; s < total; s++) { L::K k; int cur = -1; long v = s * 25 + it; for (int i = 0; i < depth; i++, v /= 5) { mc::at("history %ld step %ld", s * 25 + it, i); mc::tick(); mc::trans(); int op = (int)(v % 5); bool thrown = false; if (op == 4) { k = L::extract(m1, ALICE, 1); cur = 0; } else { const Bytes& o = ops[op]; try { k.set_priv(&o[0], &o[32], &o[64], &o[128]); cur = op; } catch (std::exception&) { thrown = true; } } OK(thrown == (op == 2 || op == 3), "exception", "operation %d", op); mc::state(mc::hashv(6, s * 25 + it, i)); if (cur >= 0) check_key<S3>(k, cur ? ks2 : ks, cur ? tb : ta, "history"); } mc::trace(); }
})
// exported keys import to keys that behave the same
SCENARIO("export", 24, [](long it) {
    typedef Lib<S3> L; N ks = masters()[it % 6]; Bytes id = mc::filled(it, it); u8 b[32]; rn::put(b, ks); L::M m(b); mc::at("key %ld", it); mc::state(mc::hashv(7, it)); N t2 = user<S3>(ks, id, 1); L::K k = L::extract(m, id, 1); Bytes e = L::key(k); L::K k2; k2.set_priv(&e[0], &e[32], &e[64], &e[128]); check_key<S3>(k2, ks, t2, "imported user key"); Bytes pe = L::priv(m); L::M m2(pe.data()); check_master<S3>(m2, ks, "imported master key", true);
    Bytes q = L::pub(m.fetch_SignPublicKey()); L::P p; p.set_pub(&q[0], &q[64]); ScriptRng r; r.push(filler(it + 5)); Bytes sg = L::sign(k, MSG, r, it % 3); OK(L::verify(p, sg, MSG, id, 1) && L::verify(m.fetch_SignPublicKey(), sg, MSG, id, 1) && L::verify(k2.fetch_pub(), sg, MSG, id, 1), "signature", "an imported public key refuses a signature"); sg[31] ^= 1; OK(!L::verify(p, sg, MSG, id, 1), "signature", "an imported public key accepts anything");
    L::P cp = p; L::K ck = k; L::M cm = m; check_master<S3>(cm, ks, "copy", true); check_key<S3>(ck, ks, t2, "copy"); OK(L::pub(cp) == q, "public key", "copy");
})
// identities of any length up to beyond 2^32 octets
template <size_t DS> static void longid(long it)
{
    typedef lng::SparseHash<DS> H; size_t n = lng::len(it).n(); const u8* p = lng::data() + it % 91; N ks = masters()[3 + it % 3]; u8 kb[32]; rn::put(kb, ks); static std::map<int, typename Lib<H>::M> ms; auto f = ms.find(it % 3); if (f == ms.end()) f = ms.emplace(it % 3, typename Lib<H>::M(kb)).first; int hid = it % 2 ? 1 : (int)(it & 255); mc::at("identity of %ld octets", n);
    N t1 = hnl(DS, 1, {{p, n}, Bytes{(u8)hid}}), a = addm(t1, ks, N9()); if (is0(a)) _exit(90); N t2 = mulm(ks, invm(a, N9()), N9()); ScriptRng r; typename Lib<H>::K k = it % 2 ? f->second.gen_SignPrivateKey(p, n, r) : f->second.gen_SignPrivateKey(p, n, r, (u8)hid); mc::eval(); mc::tick(); mc::state(mc::hashv(0x79, n, DS));
    Pt d = sm9c().mulg(t2); Bytes w = rn::bytes(d.x); cat(w, d.y); Bytes g = Lib<H>::key(k); g.resize(64); OK(g == w, "user key", "identity of %zu octets, digest %zu: got %s want %s", n, DS, mc::hex(g).c_str(), mc::hex(w).c_str());
}
SCENARIO("long identities", [] { return lng::nlens(); }, [](long it) { longid<32>(it); longid<20>(it); longid<48>(it); })
MC_MAIN
