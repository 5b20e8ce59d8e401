// C16: SM2 verification decides exactly the standard's relation.
#include "longsm.h"
#include <gmlib/sm2/sm2.h>
#include <set>
using namespace sm2r;
typedef ForcedHash<32> H;
static Bytes default_id() { Bytes id(16); for (int i = 0; i < 16; i++) id[i] = (u8)('1' + i % 8); return id; }
static ::sm2::SM2PublicKey<H> pubkey(const Pt& P) { u8 b[64]; rn::put(b, P.x); rn::put(b + 32, P.y); return ::sm2::SM2PublicKey<H>(b, b + 32); }
struct Case { Pt P; N r, s, e; bool forced; Bytes id, m; };
static bool lib(const ::sm2::SM2PublicKey<H>& k, const N& r, const N& s, const Bytes& id, const Bytes& m, bool def)
{
    static mc::Tight S(64), M(20000), D(70000); S.set(64); rn::put(S.p, r); rn::put(S.p + 32, s); M.set(m); D.set(id);
    bool v = def ? k.verify(S.p, M.p, m.size()) : k.verify(S.p, M.p, m.size(), D.p, id.size());
    mc::eval(); if (!S.ok() || !M.ok() || !D.ok() || get(S.p) != r || get(S.p + 32) != s) mc::fail("bounds", "verification changed its input");
    return v;
}
static Hook force(const Bytes& in, const N& e) { Bytes eb = rn::bytes(e); return [in, eb](const Bytes& x, u8* o, size_t n) { if (x != in) return false; for (size_t i = 0; i < n; i++) o[i] = i < 32 ? eb[i] : 0; return true; }; }
static void judge(const Pt& P, const N& r, const N& s, const Bytes& id, const Bytes& m, const char* what, int expect = -1)
{
    auto k = pubkey(P); bool want = verify<H>(P, r, s, id, m), got = lib(k, r, s, id, m, id == default_id());
    mc::state(mc::hashv(rn::h(P.x), rn::h(r), rn::h(s), mc::hash(id.data(), id.size()), mc::hash(m.data(), m.size()), hook() ? 1 : 0));
    if (expect >= 0 && want != (bool)expect) { fprintf(stderr, "%s: construction failed\n", what); _exit(90); }
    if (got != want) mc::fail(want ? "rejects" : "accepts", "%s: r=%s s=%s P=%s id %zu bytes: the library %s it", what, rn::str(r).c_str(), rn::str(s).c_str(), re::str(P).c_str(), id.size(), got ? "accepts" : "rejects");
}
// with H(Z||M) forced to e
static void judge_e(const Pt& P, const N& r, const N& s, const N& e, const char* what, int expect = -1)
{
    Bytes id = default_id(), m = {'m'}; Bytes in = minput<H>(id, P, m); WithHook h(force(in, e)); judge(P, r, s, id, m, what, expect);
}
static std::vector<N> edge() { const N n = SM2N(), z = zero(); std::vector<N> v; neighbours(v, small(2), 2); neighbours(v, n, 3); neighbours(v, SM2P(), 1); v.push_back(sub(z, 1)); v.push_back(sub(z, 2)); u64 q[4]; modw(n.w, 4, small(2), q); N hlf; memcpy(hlf.w, q, 32); neighbours(v, hlf, 1); v.push_back(pow2(255)); v.push_back(pow2(128)); v.push_back(filler(1)); v.push_back(filler(2)); v.push_back(sub(n, filler(1))); uniq(v); return v; }
static std::vector<N> keyd() { return {small(1), small(2), sub(SM2N(), 2), filler(31), pow2(254)}; }
// every pair of edge values, with the hash that makes the equation hold for the reduced values
SCENARIO("edges", [] { return (long)(edge().size() * 5); }, [](long it) {
    auto E = edge(); N r = E[it / 5], d = keyd()[it % 5]; const Curve& c = sm2c(); Pt P = c.mulg(d);
    for (size_t j = 0; j < E.size(); j++) {
        N s = E[j], rr = mod(r, c.n), ss = mod(s, c.n), t = addm(rr, ss, c.n); Pt Q = c.mul2(ss, t, P); mc::at("key %ld r edge %ld s edge %ld", it % 5, it / 5, j);
        N x = Q.inf ? zero() : mod(Q.x, c.n), e = subm(rr, x, c.n);
        judge_e(P, r, s, e, "edge pair, equation holds for the reduced values"); int cy; N e2 = add(e, c.n, &cy); if (!cy) judge_e(P, r, s, e2, "edge pair, hash value above n");
        judge_e(P, r, s, addm(e, small(1), c.n), "edge pair, hash off by one"); judge_e(P, r, s, subm(e, small(1), c.n), "edge pair, hash off by minus one");
        // as if x were 0 or 1 (a wrong treatment of infinity or t=0)
        judge_e(P, r, s, rr, "edge pair, x taken as 0"); judge_e(P, r, s, subm(rr, small(1), c.n), "edge pair, x taken as 1");
        N xs = mod(c.mulg(ss).x, c.n); if (!is0(ss)) judge_e(P, r, s, subm(rr, xs, c.n), "edge pair, x of [s]G only");
        if (!is0(t)) judge_e(P, r, s, subm(rr, mod(c.mul(t, P).x, c.n), c.n), "edge pair, x of [t]P only");
    }
    if (it == 12) mc::sample("r=%s with %zu edge s, hash forced so that the equation holds", rn::str(r).c_str(), E.size()); })
// r+s=n, sum at infinity, sum of equal points, opposite x
SCENARIO("special", 5 * 12, [](long it) {
    const Curve& c = sm2c(); N d = keyd()[it / 12], r = it % 12 < 6 ? edge()[1 + it % 12] : filler(100 + it), n = c.n; r = mod(r, n); if (is0(r)) return; Pt P = c.mulg(d); mc::at("special case %ld", it);
    std::vector<N> es = {zero(), small(1), r, sub(n, 1), subm(r, small(1), n), subm(r, c.g.x, n), subm(r, P.x, n)};
    N s = negm(r, n); for (auto& e : es) judge_e(P, r, s, e, "r+s=n", 0); judge_e(P, r, s, subm(r, mod(c.mulg(s).x, n), n), "r+s=n, equation holds for [s]G", 0);
    N i = invm(addm(d, small(1), n), n); s = negm(mulm(mulm(r, d, n), i, n), n); // s + (r+s)d = 0
    if (!is0(s)) for (auto& e : es) judge_e(P, r, s, e, "sum at infinity", 0);
    // [s]G = [t]P: s = (r+s)d, s(1-d) = rd
    N q = subm(small(1), d, n); if (!is0(q)) { s = mulm(mulm(r, d, n), invm(q, n), n); Pt Q = c.mulg(addm(s, s, n)); if (!is0(s) && !is0(addm(r, s, n)) && !Q.inf) { judge_e(P, r, s, subm(r, mod(Q.x, n), n), "sum of two equal points", 1); judge_e(P, r, s, r, "sum of two equal points, taken as x=0"); } } })
// x-coordinates at and above n, at the ends of the field: public keys built around them
SCENARIO("bigx", 48, [](long it) {
    const Curve& c = sm2c(); N x = it < 16 ? add(c.n, it) : it < 32 ? sub(c.p, it - 15) : small(it - 32), y; mc::at("x case %ld", it);
    for (int par = 0; par < 2; par++) if (c.lift(y, x, par)) for (int k = 0; k < 4; k++) {
        N r = k == 0 ? small(1) : k == 1 ? sub(c.n, 1) : filler(200 + it * 4 + k), s = k == 0 ? small(1) : filler(300 + it + k); r = mod(r, c.n); s = mod(s, c.n); N t = addm(r, s, c.n); if (is0(t) || is0(r) || is0(s)) continue;
        Pt Q = pt(x, y), P = c.mul(invm(t, c.n), c.add2(Q, c.neg(c.mulg(s)))); if (P.inf) continue;
        judge_e(P, r, s, subm(r, mod(x, c.n), c.n), "crafted x coordinate", 1);
        judge_e(P, r, s, subm(r, addm(x, small(1), c.n), c.n), "crafted x coordinate, off by one", 0);
    } })
// genuine signatures and every one-bit change of signature, message, identity and key
SCENARIO("tamper", 24 * 4, [](long it) {
    const Curve& c = sm2c(); int cs = (int)(it / 4), part = (int)(it % 4); N d = keyd()[cs % 5], k = filler(400 + cs); Pt P = c.mulg(d); Bytes id = cs % 3 == 0 ? default_id() : mc::filled(cs * 3 % 40, cs), m = mc::filled(cs * 5 % 70, cs + 1);
    Sig g = sign<H>(d, id, m, {k, filler(401 + cs)}); auto key = pubkey(P); bool def = id == default_id(); mc::at("genuine signature %ld", cs);
    if (!lib(key, g.r, g.s, id, m, def)) mc::fail("rejects", "a genuine signature is rejected (case %d)", cs);
    int st = mc::thorough() ? 1 : 3;
    for (int b = part * 64; b < part * 64 + 64; b += st) for (int w = 0; w < 2; w++) { N r = g.r, s = g.s; (w ? s : r).w[b / 64] ^= (u64)1 << (b % 64); mc::at("genuine signature %ld, half %ld bit %ld", cs, w, b); judge(P, r, s, id, m, "one bit of the signature changed"); }
    if (part == 0) {
        for (size_t b = 0; b < m.size(); b++) { Bytes x = m; x[b] ^= (u8)(1 << b % 8); judge(P, g.r, g.s, id, x, "message changed"); } { Bytes x = m; x.push_back(0); judge(P, g.r, g.s, id, x, "message extended"); if (m.size()) { x = m; x.pop_back(); judge(P, g.r, g.s, id, x, "message cut"); } }
        for (size_t b = 0; b < id.size(); b++) { Bytes x = id; x[b] ^= (u8)(1 << b % 8); judge(P, g.r, g.s, x, m, "identity changed"); } { Bytes x = id; x.push_back(0); judge(P, g.r, g.s, x, m, "identity extended"); if (id.size()) { x = id; x.pop_back(); judge(P, g.r, g.s, x, m, "identity cut"); } }
        judge(c.neg(P), g.r, g.s, id, m, "negated key"); judge(c.add2(P, c.g), g.r, g.s, id, m, "other key"); judge(P, g.s, g.r, id, m, "halves swapped"); judge(P, g.r, negm(g.s, c.n), id, m, "s negated"); judge(P, negm(g.r, c.n), g.s, id, m, "r negated");
        int cy; N x = add(g.r, c.n, &cy); if (!cy) judge(P, x, g.s, id, m, "r+n"); x = add(g.s, c.n, &cy); if (!cy) judge(P, g.r, x, id, m, "s+n");
    } })
// the final comparison: R' differs from r in one bit, one octet, a word or by the order of its octets
SCENARIO("final comparison", 40, [](long it) {
    const Curve& c = sm2c(); N d = keyd()[it % 5], r = it % 4 == 3 ? pow2(128) : mod(filler(900 + it), c.n), s = mod(filler(950 + it), c.n), t = addm(r, s, c.n); if (is0(t)) return; Pt P = c.mulg(d), Q = c.mul2(s, t, P); N x = mod(Q.x, c.n); long i = 0;
    for (auto& v : altered(r)) { mc::at("case %ld alteration %ld", it, i++); judge_e(P, r, s, subm(mod(v, c.n), x, c.n), "final comparison", v == r ? 1 : -1); } })
// small r and s so that r+n and s+n fit: the equation holds, only the range forbids it
SCENARIO("overrange", 64, [](long it) {
    const Curve& c = sm2c(); N d = keyd()[it % 5]; Pt P = c.mulg(d); mc::at("case %ld", it); N lim = sub(zero(), c.n); // values below lim fit after adding n
    N r = it < 32 ? small(1 + it) : mod(filler(500 + it), lim), s = it < 32 ? mod(filler(600 + it), lim) : small(it); N t = addm(r, s, c.n); if (is0(t)) return; Pt Q = c.mul2(s, t, P); N e = subm(r, mod(Q.x, c.n), c.n);
    judge_e(P, r, s, e, "in range", 1); judge_e(P, add(r, c.n), s, e, "r+n", 0); judge_e(P, r, add(s, c.n), e, "s+n", 0); judge_e(P, add(r, c.n), add(s, c.n), e, "both +n", 0); })
static std::vector<long> idlens() { std::vector<long> v; for (long i = 0; i < 40; i++) v.push_back(i); for (long c = 8180; c < 8200; c++) v.push_back(c); for (long c : {255L, 256L, 4096L, 16384L, 16385L, 65535L, 65536L, 65537L}) v.push_back(c); return v; }
SCENARIO("identities", [] { return (long)idlens().size(); }, [](long it) {
    const Curve& c = sm2c(); long n = idlens()[it]; Bytes id = mc::filled(n, 5), m = {'q'}; N d = filler(31); Pt P = c.mulg(d); mc::at("identity of %ld bytes", n);
    Bytes sid = id; Sig g = sign<H>(d, sid, m, {filler(700), filler(701)}); // for long identities: ENTL wraps modulo 2^16
    judge(P, g.r, g.s, id, m, "identity length", n <= 8191);
    judge(P, zero(), zero(), id, m, "identity length, zero signature", 0);
    Sig g2 = sign<H>(d, default_id(), m, {filler(702)}); judge(P, g2.r, g2.s, id, m, "identity length, signature for the default identity"); })
// digests of other sizes
template <class HH> static void sized(long it)
{
    N d = filler(31); Bytes id = default_id(), m = mc::filled(it, 3); Sig g = sm2r::sign<HH>(d, id, m, {filler(800 + it), filler(801)}); u8 b[64], sg[64]; Pt P = sm2c().mulg(d); rn::put(b, P.x); rn::put(b + 32, P.y); ::sm2::SM2PublicKey<HH> k(b, b + 32); rn::put(sg, g.r); rn::put(sg + 32, g.s);
    if (!k.verify(sg, m.data(), m.size())) mc::fail("rejects", "genuine signature with another digest size"); sg[63 - it % 64] ^= 1; bool w = sm2r::verify<HH>(P, get(sg), get(sg + 32), id, m); if (k.verify(sg, m.data(), m.size()) != w) mc::fail("accepts", "altered signature with another digest size"); mc::eval(2); mc::state(mc::hashv(9, it, HH::DIGEST_SIZE));
}
SCENARIO("digests", 64, [](long it) { mc::at("message of %ld bytes", it); sized<ForcedHash<16>>(it); sized<ForcedHash<20>>(it); sized<ForcedHash<31>>(it); sized<ForcedHash<33>>(it); sized<ForcedHash<48>>(it); sized<ForcedHash<64, 128>>(it); })
// messages of any length up to beyond 2^32 octets: the genuine one and its neighbours in length and content
SCENARIO("long messages", [] { return lng::nlens(); }, [](long it) {
    typedef lng::SparseHash<32> HL; size_t n = lng::len(it).n(); const u8* p = lng::data() + it % 91; N d = filler(31); Pt P = sm2c().mulg(d); Bytes id = default_id(), z = HashOf<HL>::eval(zinput(id, P)); u8 b[64], sg[64]; rn::put(b, P.x); rn::put(b + 32, P.y); ::sm2::SM2PublicKey<HL> k(b, b + 32);
    auto one = [&](const u8* q, size_t l, const Sig& g, const char* what) { mc::at("signed %ld octets, presented %ld", n, l); rn::put(sg, g.r); rn::put(sg + 32, g.s); bool want = verify_e(P, g.r, g.s, num(lng::eval(32, {z, {q, l}}), sm2c().n)), got = k.verify(sg, q, l); mc::eval(); mc::state(mc::hashv(0x78, n, l, q - p)); if (got != want) mc::fail(want ? "rejects" : "accepts", "%s: signed %zu octets, presented %zu", what, n, l); if (want != (q == p && l == n)) _exit(90); };
    Sig g = sign_e(d, num(lng::eval(32, {z, {p, n}}), sm2c().n), {mod(filler(1000 + it), sm2c().n)}); if (g.tries < 0) _exit(90); one(p, n, g, "long message"); one(p + 1, n, g, "other long message"); for (size_t l : {n - 1, n + 1, n ^ 1u << 8, n & 0xffff, n & 0x7fffffff, n & 0xffffffff, n / 2, n / 8}) if (l != n && l < ((size_t)1 << 32) + 200) one(p, l, g, "shorter or longer message"); })
// identities of any length up to beyond 2^32 octets: nothing verifies, in particular not what was signed for a part of the identity
SCENARIO("long identities", [] { return lng::nlens(14); }, [](long it) {
    typedef lng::SparseHash<32> HL; const u8* p = lng::data(); N d = filler(31); Pt P = sm2c().mulg(d); Bytes m = {'q'}; u8 b[64], sg[64]; rn::put(b, P.x); rn::put(b + 32, P.y); ::sm2::SM2PublicKey<HL> k(b, b + 32); static const long ADD[] = {0, 16, 4096, 8191};
    for (long a : ADD) { size_t l = lng::len(it, 14).n() + a; std::set<size_t> part; for (int w : {8, 10, 13, 16, 29, 31, 32}) { size_t t = l & (((size_t)1 << w) - 1); if (t <= 8191) part.insert(t); } for (size_t t : part) { mc::at("signed for %ld octets, presented %ld", t, l); Bytes id(p, p + t), z = HashOf<HL>::eval(zinput(id, P)); Sig g = sign_e(d, num(lng::eval(32, {z, m}), sm2c().n), {filler(700)}); if (g.tries < 0) _exit(90); rn::put(sg, g.r); rn::put(sg + 32, g.s); mc::eval(); mc::trace(); mc::state(mc::hashv(0x7a, l, t));
        if (!k.verify(sg, m.data(), m.size(), id.data(), t)) mc::fail("rejects", "identity of %zu octets", t); if (k.verify(sg, m.data(), m.size(), p, l)) mc::fail("accepts", "a signature for an identity of %zu octets verifies for one of %zu", t, l); } } })
// very many verifications by one object: mostly genuine, mostly altered, alternating, alike
SCENARIO("many", 6, [](long pat) {
    const Curve& c = sm2c(); N d = filler(31); Pt P = c.mulg(d); auto k = pubkey(P); u8 db[32]; rn::put(db, d); ::sm2::SM2PrivateKey<H> pk(db); const long n = mc::thorough() ? 140000 : 66000; Bytes id = default_id(), big(8192, 3); struct V { Bytes m; u8 s[64]; bool ok; }; std::vector<V> v;
    for (int i = 0; i < 8; i++) { V x; x.m = mc::filled(i * 11, i); Sig g = sign<H>(d, id, x.m, {mod(filler(90 + i), c.n)}); rn::put(x.s, g.r); rn::put(x.s + 32, g.s); x.ok = true; v.push_back(x); x.s[i * 8] ^= 4; x.ok = verify<H>(P, get(x.s), get(x.s + 32), id, x.m); if (x.ok) _exit(90); v.push_back(x); x.s[i * 8] ^= 4; memset(x.s + (i & 1 ? 32 : 0), i & 2 ? 0xff : 0, 32); v.push_back(x); }
    for (long j = 0; j < n; j++) { int q = pat == 0 ? 0 : pat == 1 ? 1 : pat == 2 ? (int)(j % 2) : pat == 3 ? (int)(j % 8) * 3 : pat == 4 ? (int)(j % 1000 == 999 ? j % 24 / 3 * 3 : 1 + j % 2) : (int)(j % 24); if (j % 100 == 0) { mc::at("pattern %ld verification %ld", pat, j); mc::tick(); }
        if (pat == 5 && j % 3 == 1) { if (k.verify(v[0].s, v[0].m.data(), v[0].m.size(), big.data(), big.size())) mc::fail("accepts", "verification %ld by one object accepts an identity of 8192 octets", j); }
        const V& x = v[q]; bool got = pat % 2 && j % 2 ? pk.verify(x.s, x.m.data(), x.m.size()) : k.verify(x.s, x.m.data(), x.m.size()); mc::eval(); if (got != x.ok) mc::fail(x.ok ? "rejects" : "accepts", "verification %ld by one object %s %s signature (pattern %ld)", j, got ? "accepts" : "rejects", x.ok ? "a genuine" : "an altered", pat); }
    mc::state(mc::hashv(0x4d, pat)); })
MC_MAIN
