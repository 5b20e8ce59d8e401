// C14: SM2 key import and generation.
#include "sm2ref.h"
#include <gmlib/sm2/sm2.h>
#include <gmlib/sm3/sm3.h>
using namespace sm2r;
typedef ForcedHash<32> H;
typedef ::sm2::SM2PrivateKey<H> Priv; typedef ::sm2::SM2PublicKey<H> Pub;
template <> struct sm2r::HashOf<sm3::SM3> { static Bytes eval(const Bytes& b) { return refsm3::sm3(b); } };

static std::vector<N> near_edges()
{
    std::vector<N> v; const N n = SM2N(), z = zero(); int w = mc::thorough() ? 200 : 24;
    neighbours(v, small(w), w); neighbours(v, n, w); neighbours(v, SM2P(), 6); neighbours(v, sub(z, 1 + w), w); neighbours(v, sub(z, n), 4); neighbours(v, sub(add(n, n), z), 4);
    for (int i = 0; i < 256; i++) { v.push_back(pow2(i)); v.push_back(sub(n, pow2(i))); v.push_back(add(n, pow2(i))); v.push_back(sub(pow2(i), 1)); }
    for (int i = 0; i < 40; i++) v.push_back(filler(i)); uniq(v); return v;
}
static std::vector<N>& EDGES() { static std::vector<N> v = near_edges(); return v; }
template <class K> static Pt pub_of(const K& k) { u8 b[64]; k.get_pub(b, b + 32); return pt(get(b), get(b + 32)); }
static N priv_of(const Priv& k) { u8 b[32]; k.get_priv(b); return get(b); }
// a usable key signs, verifies, encrypts and decrypts
static void usable(const Priv& k, const Pt& P, const char* what)
{
    ScriptRng r; for (int i = 0; i < 4; i++) r.push(filler(900 + i)); u8 sg[64], m[7] = {1, 2, 3, 4, 5, 6, 7}; Bytes mb(m, m + 7), id(16); for (int i = 0; i < 16; i++) id[i] = (u8)('1' + i % 8);
    k.sign(sg, m, 7, r);
    if (!verify<H>(P, get(sg), get(sg + 32), id, mb)) mc::fail("usable", "%s: a signature by the key does not verify (reference)", what);
    if (!k.verify(sg, m, 7) || !k.fetch_pub().verify(sg, m, 7)) mc::fail("usable", "%s: a signature by the key does not verify (library)", what);
    u8 ct[65 + 32 + 7], pt_[7]; size_t n = 0; k.encrypt(ct, &n, m, 7, r); if (n != sizeof ct) mc::fail("usable", "%s: ciphertext length", what);
    size_t o = 0; k.decrypt(pt_, &o, ct, n); if (o != 7 || memcmp(pt_, m, 7)) mc::fail("usable", "%s: decryption differs", what);
}
static void check_priv(const Priv& k, const N& d, const char* what, bool use)
{
    Pt P = sm2c().mulg(d);
    if (priv_of(k) != d) mc::fail("priv", "%s: get_priv returns %s, expected %s", what, rn::str(priv_of(k)).c_str(), rn::str(d).c_str());
    if (pub_of(k.fetch_pub()) != P) mc::fail("pub", "%s %s: public key %s, expected %s", what, rn::str(d).c_str(), re::str(pub_of(k.fetch_pub())).c_str(), re::str(P).c_str());
    if (use) usable(k, P, what);
}
SCENARIO("import_private", [] { return (long)EDGES().size(); }, [](long it) {
    N d = EDGES()[it], max = sub(SM2N(), 2); bool want = !is0(d) && !(max < d), got[3] = {1, 1, 1}; u8 b[32]; rn::put(b, d); mc::at("private key %ld", it); mc::eval(3); mc::state(mc::hashv(1, rn::h(d)));
    Priv k; try { k.set_priv(b); } catch (std::exception&) { got[0] = false; }
    try { Priv q(b); if (want) check_priv(q, d, "constructed key", false); } catch (mc::Abort&) { throw; } catch (std::exception&) { got[1] = false; }
    // a refused key leaves the old one in place
    N old = filler(5); u8 ob[32]; rn::put(ob, old); Priv q(ob); try { q.set_priv(b); } catch (std::exception&) { got[2] = false; }
    for (bool g : got) if (g != want) mc::fail("import", "private key %s is %s", rn::str(d).c_str(), g ? "accepted" : "refused");
    if (want) { check_priv(k, d, "imported key", true); check_priv(q, d, "re-imported key", false); } else check_priv(q, old, "key after a refused import", false);
    if (it == 30) mc::sample("private key %s: %s", rn::str(d).c_str(), want ? "valid" : "refused"); })
// every edge value as the random word, alone and after edge words; and one-bit differences
SCENARIO("generate", [] { return (long)EDGES().size(); }, [](long it) {
    N w = EDGES()[it], max = sub(SM2N(), 2); mc::at("random word %ld", it); mc::eval(2); mc::state(mc::hashv(2, rn::h(w)));
    for (int ctor = 0; ctor < 2; ctor++) {
        ScriptRng r; r.push(w); for (int i = 0; i < 20; i++) r.push(filler(300 + i));
        Priv k; Priv* p = &k; if (ctor) p = new Priv(r); else k.gen_priv(r);
        N d = priv_of(*p); if (is0(d) || max < d) mc::fail("range", "random word %s gives the key %s", rn::str(w).c_str(), rn::str(d).c_str());
        check_priv(*p, d, "generated key", ctor == 0);
        u8 b[32]; rn::put(b, d); Priv again; try { again.set_priv(b); } catch (std::exception&) { mc::fail("import", "the generated key %s is refused by set_priv", rn::str(d).c_str()); }
        if (ctor) delete p;
    } })
// generation is one to one on random words below the number of keys, and the same object can be used again
SCENARIO("distinct", 1, [](long) {
    std::map<std::string, int> seen; const N n = SM2N(), lim = sub(n, 2); Priv k; int i = 0;
    for (auto& w : EDGES()) { mc::at("word %ld", i); if (!(w < lim)) { i++; continue; } ScriptRng r; r.push(w); for (int j = 0; j < 8; j++) r.push(filler(500 + j)); k.gen_priv(r); std::string s = rn::str(priv_of(k)); mc::eval(); if (seen.count(s)) mc::fail("distinct", "two random words (%d and %d) give the same key %s", seen[s], i, s.c_str()); seen[s] = i; i++; }
    // every bit of the random word matters
    N b = filler(4242); b.w[3] &= 0x7fffffffffffffffull; for (int bit = 0; bit < 255; bit++) { N w = b; w.w[bit / 64] ^= (u64)1 << (bit % 64); ScriptRng r; r.push(w); for (int j = 0; j < 8; j++) r.push(filler(500 + j)); k.gen_priv(r); std::string s = rn::str(priv_of(k)); mc::eval(); if (seen.count(s)) mc::fail("distinct", "bit %d of the random word does not matter", bit); seen[s] = 10000 + bit; }
    mc::state(3); })
// --- public keys ---
struct PubCase { Pt p; };
static std::vector<Pt>& PUBS()
{
    static std::vector<Pt> v = [] {
        std::vector<Pt> r; const Curve& c = sm2c(); const N& p = c.p; N y;
        std::vector<Pt> good; for (u64 k = 1; k < 6; k++) good.push_back(c.mulg(small(k))); good.push_back(c.mulg(sub(c.n, 1))); good.push_back(c.mulg(filler(8)));
        for (u64 x = 0; x < 12; x++) for (int b = 0; b < 2; b++) if (c.lift(y, small(x), b)) good.push_back(pt(small(x), y));
        for (u64 x = 1; x < 12; x++) if (c.lift(y, sub(p, x), 0)) good.push_back(pt(sub(p, x), y));
        for (u64 x = 0; x < 12; x++) if (c.lift(y, add(c.n, x), 1)) good.push_back(pt(add(c.n, x), y));
        good.push_back(pt(hex("9c17043effe1a805a74a9a5e70b9d659705d3242094a566dc016f49311178d1f"), small(1)));
        good.push_back(pt(hex("3b404f94e46027d11401987cd5acb2953e4bff91a7d856b40986700015b4f8a6"), small(2)));
        for (auto& g : good) {
            r.push_back(g); r.push_back(c.neg(g));
            for (int dx = -2; dx <= 2; dx++) for (int dy = -2; dy <= 2; dy++) r.push_back(pt(dx < 0 ? sub(g.x, -dx) : add(g.x, dx), dy < 0 ? sub(g.y, -dy) : add(g.y, dy)));
            int cy; N t = add(g.x, p, &cy); if (!cy) { r.push_back(pt(t, g.y)); int c2; N u = add(g.y, p, &c2); if (!c2) r.push_back(pt(t, u)); }
            t = add(g.y, p, &cy); if (!cy) r.push_back(pt(g.x, t));
            r.push_back(pt(g.y, g.x)); r.push_back(pt(g.x, zero())); r.push_back(pt(zero(), g.y)); r.push_back(pt(g.x, p)); r.push_back(pt(p, g.y)); r.push_back(pt(g.x, g.x));
            for (int b = 0; b < 256; b += mc::thorough() ? 1 : 5) { Pt q = g; q.x.w[b / 64] ^= (u64)1 << (b % 64); r.push_back(q); q = g; q.y.w[b / 64] ^= (u64)1 << (b % 64); r.push_back(q); }
        }
        for (auto& g : good) c.off(r, g.x); for (u64 x = 0; x < (mc::thorough() ? 60 : 12); x++) { c.off(r, small(x)); c.off(r, sub(p, x)); c.off(r, filler(700 + x)); }
        std::vector<N> e = {zero(), small(1), small(2), sub(p, 1), p, add(p, 1), sub(zero(), 1), c.n, c.b, c.a}; for (auto& a : e) for (auto& b : e) r.push_back(pt(a, b));
        return r; }();
    return v;
}
SCENARIO("import_public", [] { return (long)PUBS().size(); }, [](long it) {
    Pt q = PUBS()[it]; const Curve& c = sm2c(); bool want = q.x < c.p && q.y < c.p && c.on(q), got[3] = {1, 1, 1}; u8 b[64]; rn::put(b, q.x); rn::put(b + 32, q.y); mc::at("public key %ld", it); mc::eval(3); mc::state(mc::hashv(4, rn::h(q.x), rn::h(q.y)));
    Pub k; try { k.set_pub(b, b + 32); } catch (std::exception&) { got[0] = false; }
    try { Pub n(b, b + 32); if (pub_of(n) != q) mc::fail("get_pub", "constructed key returns other coordinates"); } catch (mc::Abort&) { throw; } catch (std::exception&) { got[1] = false; }
    Pt op = c.mulg(small(9)); u8 ob[64]; rn::put(ob, op.x); rn::put(ob + 32, op.y); Pub o(ob, ob + 32); try { o.set_pub(b, b + 32); } catch (std::exception&) { got[2] = false; }
    for (bool g : got) if (g != want) mc::fail("import", "public key %s is %s", re::str(q).c_str(), g ? "accepted" : "refused");
    if (pub_of(o) != (want ? q : op)) mc::fail("get_pub", "wrong coordinates after %s import", want ? "an" : "a refused");
    if (want && pub_of(k) != q) mc::fail("get_pub", "imported key returns other coordinates");
    // the key that is in force is also the one used for encryption
    const Pt& use = want ? q : op; ScriptRng r; r.push(filler(12)); u8 m[5] = {9, 8, 7, 6, 5}, ct[65 + 32 + 5]; size_t n = 0; o.encrypt(ct, &n, m, 5, r);
    Bytes w = encrypt<H>(use, Bytes(m, m + 5), UNC, {draw(filler(12), sub(c.n, 1))}); if (n != w.size() || memcmp(ct, w.data(), n)) mc::fail("use", "encryption with the key in force differs (%s import)", want ? "after an" : "after a refused");
    if (it == 0) mc::sample("public key %s: %s", re::str(q).c_str(), want ? "valid" : "refused"); })
// the real hash, one key for every edge
SCENARIO("sm3", 12, [](long it) {
    N ds[] = {small(1), small(2), sub(SM2N(), 2), sub(SM2N(), 3), filler(21), filler(22)}; N d = ds[it % 6]; u8 b[32]; rn::put(b, d); ::sm2::SM2PrivateKey<sm3::SM3> k(b); mc::at("key %ld", it);
    Bytes m = mc::filled(it * 13, it), id(16); for (int i = 0; i < 16; i++) id[i] = (u8)('1' + i % 8); ScriptRng r; N w = filler(60 + it); r.push(w); r.push(w); N kk = draw(w, sub(SM2N(), 1)); u8 sg[64]; k.sign(sg, m.data(), m.size(), r);
    Sig s = sign<sm3::SM3>(d, id, m, {kk}); if (get(sg) != s.r || get(sg + 32) != s.s) mc::fail("sm3", "SM2 with SM3: signature differs from the standard");
    if (!k.verify(sg, m.data(), m.size())) mc::fail("sm3", "SM2 with SM3: signature is rejected");
    Bytes ct(65 + 32 + m.size()), o(m.size()); size_t n; k.encrypt(ct.data(), &n, m.data(), m.size(), r); Bytes e = encrypt<sm3::SM3>(sm2c().mulg(d), m, UNC, {kk}); if (n != e.size() || memcmp(ct.data(), e.data(), n)) mc::fail("sm3", "SM2 with SM3: ciphertext differs from the standard");
    mc::eval(2); mc::state(mc::hashv(5, it)); })
// --- histories of one object ---
// every sequence of imports, refused imports, generations, failing generations, assignments and uses; after each step the object is the key of the last success, and works as that key
static Bytes MSGB() { return mc::filled(37, 4); }
static const Bytes& ID0() { static Bytes b = [] { Bytes i(16); for (int k = 0; k < 16; k++) i[k] = (u8)('1' + k % 8); return i; }(); return b; }
struct Known { Pt P; Bytes sig, ct, bad; };
static const Known& known(const N& d)
{
    static std::map<std::string, Known> m; std::string s = rn::str(d); auto f = m.find(s); if (f != m.end()) return f->second;
    const Curve& c = sm2c(); N k1 = draw(filler(801), sub(c.n, 1)), k2 = draw(filler(802), sub(c.n, 1)); Known v; v.P = c.mulg(d); Sig g = sign<H>(d, ID0(), MSGB(), {k1, k2}); v.sig = rn::bytes(g.r); cat(v.sig, g.s); v.ct = encrypt<H>(v.P, MSGB(), UNC, {k1}); v.bad = v.ct; v.bad[70] ^= 4; return m[s] = v;
}
static void step_use(const Priv& k, const N& d, int op)
{
    const Known& w = known(d); Bytes m = MSGB(); ScriptRng r; r.push(filler(801)); r.push(filler(802));
    if (op == 0) { u8 sg[64]; k.sign(sg, m.data(), m.size(), r); if (memcmp(sg, w.sig.data(), 64)) mc::fail("use", "the signature by key %s is %s, expected %s", rn::str(d).c_str(), mc::hex(sg, 64).c_str(), mc::hex(w.sig).c_str()); }
    else if (op == 1) { ScriptRng e; u8 sg[64]; bool t = false; try { k.sign(sg, m.data(), m.size(), e); } catch (RanOut&) { t = true; } if (!t) mc::fail("use", "signing without random numbers returns"); }
    else if (op == 2) { Bytes ct(65 + 32 + m.size()); size_t n = 0; k.encrypt(ct.data(), &n, m.data(), m.size(), r); if (n != ct.size() || ct != w.ct) mc::fail("use", "the ciphertext by key %s differs", rn::str(d).c_str()); }
    else if (op == 3) { Bytes o(m.size()); size_t n = 0; k.decrypt(o.data(), &n, w.ct.data(), w.ct.size()); if (n != m.size() || o != m) mc::fail("use", "decryption by key %s differs", rn::str(d).c_str()); }
    else if (op == 4) { Bytes o(m.size()); size_t n = 0; bool t = false; try { k.decrypt(o.data(), &n, w.bad.data(), w.bad.size()); } catch (std::exception&) { t = true; } if (!t) mc::fail("use", "an altered ciphertext decrypts with key %s", rn::str(d).c_str()); }
    else { if (!k.verify(w.sig.data(), m.data(), m.size())) mc::fail("use", "a genuine signature of key %s is refused", rn::str(d).c_str()); Bytes b = w.sig; b[9] ^= 1; if (k.verify(b.data(), m.data(), m.size())) mc::fail("use", "an altered signature is accepted by key %s", rn::str(d).c_str()); }
}
SCENARIO("history", 14 * 14, [](long it) {
    const N n = SM2N(); N k1 = filler(31), k2 = sub(n, 2), k3 = filler(33); u8 b[32]; rn::put(b, k3); Priv other(b); static N g1 = zero(), g2 = zero();
    if (is0(g1)) { Priv a; ScriptRng r; for (int i = 0; i < 9; i++) r.push(filler(67 + i)); a.gen_priv(r); g1 = priv_of(a); Priv c; ScriptRng q; q.push(sub(zero(), 1)); for (int i = 0; i < 9; i++) q.push(filler(87 + i)); c.gen_priv(q); g2 = priv_of(c); }
    int depth = mc::thorough() ? 4 : 3; long total = 1; for (int i = 2; i < depth; i++) total *= 14;
    for (long s = 0; s < total; s++) { Priv k; N cur = zero(); Pub old; Pt oldP; bool have = false; long v = s * 196 + it; mc::state(mc::hashv(6, v));
        for (int i = 0; i < depth; i++, v /= 14) { int op = (int)(v % 14); mc::at("history %ld step %ld", s * 196 + it, i); mc::tick(); mc::trans(); bool thrown = false, refuse = op == 2 || op == 3 || op == 6; N was = cur; ScriptRng r;
            try {
                if (op == 0) { rn::put(b, k1); k.set_priv(b); cur = k1; } else if (op == 1) { rn::put(b, k2); k.set_priv(b); cur = k2; } else if (op == 2) { rn::put(b, sub(n, 1)); k.set_priv(b); } else if (op == 3) { memset(b, 0, 32); k.set_priv(b); }
                else if (op == 4) { for (int j = 0; j < 9; j++) r.push(filler(67 + j)); k.gen_priv(r); cur = g1; } else if (op == 5) { r.push(sub(zero(), 1)); for (int j = 0; j < 9; j++) r.push(filler(87 + j)); k.gen_priv(r); cur = g2; } else if (op == 6) k.gen_priv(r); else if (op == 7) { k = other; cur = k3; }
                else if (!is0(cur)) step_use(k, cur, op - 8);
            } catch (RanOut&) { thrown = true; } catch (mc::Abort&) { throw; } catch (std::exception& e) { thrown = true; if (!refuse) mc::fail("history", "operation %d throws: %s", op, e.what()); }
            if (thrown != refuse) mc::fail("history", "operation %d %s", op, thrown ? "throws" : "does not throw");
            if (is0(cur)) continue; if (priv_of(k) != cur) mc::fail("history", "after operation %d the key is %s, expected %s (before: %s)", op, rn::str(priv_of(k)).c_str(), rn::str(cur).c_str(), rn::str(was).c_str()); if (pub_of(k.fetch_pub()) != known(cur).P) mc::fail("history", "after operation %d the public key is not that of %s", op, rn::str(cur).c_str());
            if (!have) { old = k.fetch_pub(); oldP = known(cur).P; have = true; }
        }
        mc::trace(); if (is0(cur)) continue; Priv cp = k; Priv as(other); as = k; for (const Priv* x : {(const Priv*)&k, (const Priv*)&cp, (const Priv*)&as}) for (int u : {0, 3}) step_use(*x, cur, u);
        if (pub_of(old) != oldP) mc::fail("history", "a public key taken earlier changed"); if (s % 7 == 0) { ScriptRng r; r.push(filler(801)); Bytes m = MSGB(), ct(65 + 32 + m.size()); size_t l = 0; old.encrypt(ct.data(), &l, m.data(), m.size(), r); Bytes w = encrypt<H>(oldP, m, UNC, {draw(filler(801), sub(n, 1))}); if (ct != w) mc::fail("history", "encryption with a public key taken earlier differs"); }
    }
    if (it == 14 * 4 + 2) mc::sample("every sequence of %d operations beginning (2, 4): refused import, then generation", depth); })
// very many imports and generations on one object, refused ones among them
SCENARIO("many", 5, [](long pat) {
    const N n = SM2N(); const long cnt = mc::thorough() ? 140000 : 66000; Priv k; Pub q; u8 b[64]; std::vector<N> ds = {filler(31), sub(n, 2), filler(33), small(1)}; std::vector<Pt> P; for (auto& d : ds) P.push_back(sm2c().mulg(d)); std::vector<N> gw = {filler(67), sub(small(5), 1), filler(68)}, gk; for (auto& w : gw) { Priv a; ScriptRng r; r.push(w); for (int i = 0; i < 8; i++) r.push(filler(500 + i)); a.gen_priv(r); gk.push_back(priv_of(a)); } std::vector<Pt> gp; for (auto& d : gk) gp.push_back(sm2c().mulg(d));
    for (long j = 0; j < cnt; j++) { int i = (int)(j % 4), g = (int)(j % 3); if (j % 100 == 0) { mc::at("pattern %ld operation %ld", pat, j); mc::tick(); } mc::eval(); bool t = false;
        if (pat == 4) { bool bad = j % 3 == 1; rn::put(b, P[i].x); rn::put(b + 32, P[i].y); if (bad) b[63] ^= 2; try { q.set_pub(b, b + 32); } catch (std::exception&) { t = true; } if (t != bad) mc::fail("import", "public key import %ld on one object is %s", j, t ? "refused" : "accepted"); Pt want = bad ? P[(j - 1) % 4] : P[i]; if (pub_of(q) != want) mc::fail("get_pub", "wrong coordinates after import %ld on one object", j); continue; }
        if (pat == 1 || (pat == 3 && j % 2)) { ScriptRng r; r.push(gw[g]); for (int z = 0; z < 8; z++) r.push(filler(500 + z)); k.gen_priv(r); if (priv_of(k) != gk[g] || pub_of(k.fetch_pub()) != gp[g]) mc::fail("generate", "generation %ld on one object gives another key than on a fresh one", j); }
        else { if (pat == 2 && j % 8) { N x = j % 2 ? zero() : j % 4 == 2 ? sub(n, 1) : sub(zero(), 1); rn::put(b, x); try { k.set_priv(b); } catch (std::exception&) { t = true; } if (!t) mc::fail("import", "private key import %ld on one object is accepted", j); if (j < 8) continue; if (priv_of(k) != ds[(j / 8 * 8 / 8) % 4]) mc::fail("import", "a refused import (%ld on one object) changes the key", j); }
            else { int e = pat == 2 ? (int)(j / 8 % 4) : i; rn::put(b, ds[e]); k.set_priv(b); if (priv_of(k) != ds[e] || pub_of(k.fetch_pub()) != P[e]) mc::fail("import", "import %ld on one object: wrong key", j); } } }
    mc::state(mc::hashv(0x4d, pat)); })
MC_MAIN
