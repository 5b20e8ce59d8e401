// C23: the SM9 pairing against a direct evaluation of the R-ate pairing.
#include "sm9if.h"
using namespace s9;
#define OK(cond, key, ...) do { if (!(cond)) mc::fail(key, __VA_ARGS__); } while (0)
static std::vector<N> K;            // scalars 1..N-1
static std::vector<Pt> PS; static std::vector<P2> QS; // points not made as multiples, and multiples
static F12 GP[256];                 // gt()^(2^i)
static F12 gpow(const N& e) { F12 r = f12one(); bool on = false; for (int i = 0; i < 256; i++) if (e.w[i / 64] >> (i % 64) & 1) { r = on ? r * GP[i] : GP[i]; on = true; } return r; }
static N mn(const N& a, const N& b) { return mulm(a, b, N9()); }
SETUP([] {
    const N n = N9(); u64 q[5]; int w = mc::thorough() ? 60 : 6; neighbours(K, small(w), w); neighbours(K, n, w);
    for (u64 d : {2, 3, 5}) { modw(n.w, 4, small(d), q); N t; memcpy(t.w, q, 32); neighbours(K, t, 1); }
    for (int i = 8; i < 256; i += mc::thorough() ? 4 : 24) { K.push_back(pow2(i)); K.push_back(rn::sub(n, pow2(i))); }
    for (int i = 0; i < (mc::thorough() ? 60 : 12); i++) K.push_back(filler(i + 31));
    for (auto& x : K) x = mod(x, n); std::vector<N> t; for (auto& x : K) if (!rn::is0(x)) t.push_back(x); K = t; uniq(K);
    F12 g = gt(); for (int i = 0; i < 256; i++) { GP[i] = g; g = g * g; }
    const Curve& c = sm9c(); N y; int m = 0; for (u64 x = 0; m < 8; x++) if (c.lift(y, small(x), x & 1)) { PS.push_back(pt(small(x), y)); m++; } m = 0; for (u64 x = 1; m < 4; x++) if (c.lift(y, rn::sub(c.p, x), x & 1)) { PS.push_back(pt(rn::sub(c.p, x), y)); m++; }
    m = 0; for (int x = 0; m < 4; x++) { N v = mod(filler(x + 600), c.p); if (c.lift(y, v, x & 1)) { PS.push_back(pt(v, y)); m++; } }
    for (auto& k : {small(1), small(2), small(3), rn::sub(n, 1), rn::sub(n, 2), filler(3), mod(pow2(255), n)}) { PS.push_back(c.mulg(mod(k, n))); QS.push_back(tw().mulg(mod(k, n))); }
    for (int i = 0; i < 6; i++) QS.push_back(tw().mulg(mod(filler(800 + i), n)));
    // points of the subgroup with a coordinate component chosen small cannot be constructed directly; the cofactor maps twist points into it
    { N r = rn::add(P9(), rn::sub(P9(), n)); // the twist has N * (2p - N) points
      for (u64 x = 0, k = 0; k < 4 && x < 60; x++) { F2 v = x % 2 ? f2(x) : f2(0, x), yy; if (lift2(yy, v)) { P2 s = tw().mul(r, p2(v, yy)); if (!tw().mul(n, s).inf) _exit(90); if (!s.inf) QS.push_back(s), k++; } } }
})
static F12 e(const Pt& P, const P2& Q)
{
    struct { u64 pre; I::sm9_fp12_t f; u64 post; } R; memset(&R, 0x5a, sizeof R); G1::A a, a0; G2::A b, b0; seta<G1>(a, P); seta<G2>(b, Q); memcpy(&a0, &a, sizeof a); memcpy(&b0, &b, sizeof b);
    I::sm9_pairing(R.f, a, b); mc::eval(); OK(R.pre == 0x5a5a5a5a5a5a5a5aull && R.post == R.pre && !memcmp(&a0, &a, sizeof a) && !memcmp(&b0, &b, sizeof b), "memory", "the pairing modified other memory than its result");
    F12 r = get12(R.f); u8 w[384]; I::sm9_fp12_to_bytes(w, R.f); OK(Bytes(w, w + 384) == enc(r), "bytes", "octets of a pairing value"); return r;
}
static F12 eP(const Pt& P) { I::sm9_fp12_t f; G1::A a; seta<G1>(a, P); I::sm9_pairing_P_P2(f, a); mc::eval(); return get12(f); }
static F12 eQ(const P2& Q) { I::sm9_fp12_t f; G2::A b; seta<G2>(b, Q); I::sm9_pairing_P1_Q(f, b); mc::eval(); return get12(f); }
// every pair against the defining formula
SCENARIO("direct", [] { return (long)(PS.size() * QS.size()); }, [](long it) {
    const Pt& P = PS[it / QS.size()]; const P2& Q = QS[it % QS.size()]; mc::at("P %ld Q %ld", it / (long)QS.size(), it % (long)QS.size()); mc::state(mc::hashv(1, it)); F12 w = pairing()(P, Q), g = e(P, Q);
    OK(g == w, "value", "e(%s,%s): got %s want %s", re::str(P).c_str(), r9::str(Q).c_str(), r9::str(g).c_str(), r9::str(w).c_str());
    if (it == 7) mc::sample("all pairs of %zu G1 points and %zu G2 points", PS.size(), QS.size());
})
// [a]P1, [b]P2 against powers of the reference value of the generators
static std::vector<Pt>& KP() { static std::vector<Pt> v; if (v.empty()) for (auto& k : K) v.push_back(sm9c().mulg(k)); return v; }
static P2 kq(long i) { static std::vector<P2> v(K.size()); if (v[i].inf) v[i] = tw().mulg(K[i]); return v[i]; }
SCENARIO("bilinear", [] { return (long)K.size(); }, [](long it) {
    P2 Q = kq(it); for (size_t j = 0; j < K.size(); j++) { mc::at("scalars %ld %ld", j, it); mc::tick(); mc::state(mc::hashv(2, it, j)); F12 g = e(KP()[j], Q), w = gpow(mn(K[j], K[it])); OK(g == w, "bilinear", "e([%s]P1,[%s]P2): got %s want %s", rn::str(K[j]).c_str(), rn::str(K[it]).c_str(), r9::str(g).c_str(), r9::str(w).c_str()); }
    mc::at("scalar %ld", it); mc::state(mc::hashv(3, it)); F12 w = gpow(K[it]); OK(eQ(Q) == w, "P1_Q", "e(P1,[%s]P2)", rn::str(K[it]).c_str()); OK(eP(KP()[it]) == w, "P_P2", "e([%s]P1,P2)", rn::str(K[it]).c_str()); OK(!(w == f12one()), "non-degenerate", "value one");
})
// sums in either argument, also of points that are not built as multiples of a generator
SCENARIO("additive", [] { return (long)PS.size(); }, [](long it) {
    static std::vector<P2> q = {tw().g, QS[8], QS.back()}; const Curve& c = sm9c();
    for (size_t b = 0; b < q.size(); b++) { static std::map<std::pair<size_t, size_t>, F12> m; auto at = [&](size_t i) -> const F12& { auto& x = m[{i, b}]; if (rn::is0(x.c[0])) x = e(PS[i], q[b]); return x; };
        for (size_t j = it; j < PS.size(); j++) { mc::at("G1 %ld %ld, Q %ld", it, j, b); mc::tick(); Pt s = c.add2(PS[it], PS[j]); if (s.inf) { OK(at(it) * at(j) == f12one(), "additive", "e(P,Q) e(-P,Q)"); continue; } mc::state(mc::hashv(4, it, j, b)); OK(e(s, q[b]) == at(it) * at(j), "additive", "e(P+P',Q) for P=%s P'=%s", re::str(PS[it]).c_str(), re::str(PS[j]).c_str()); }
        mc::at("G1 %ld order, Q %ld", it, b); F12 x = at(it); OK(!(x == f12one()), "non-degenerate", "value one"); OK(power(x, N9()) == f12one(), "order", "value not of order N"); }
})
SCENARIO("additive G2", [] { return (long)QS.size(); }, [](long it) {
    std::vector<Pt> ps = {sm9c().g, PS[0], PS[9]};
    for (auto& P : ps) { F12 x = e(P, QS[it]); for (size_t j = it; j < QS.size(); j++) { mc::at("G2 %ld %ld", it, j); mc::tick(); P2 s = tw().add2(QS[it], QS[j]); F12 y = x * e(P, QS[j]); mc::state(mc::hashv(5, it, j, rn::h(P.x))); if (s.inf) OK(y == f12one(), "additive", "e(P,Q) e(P,-Q)"); else OK(e(P, s) == y, "additive", "e(P,Q+Q')"); } }
})
// all orders of three calls of the three functions give the value each call has alone
SCENARIO("call order", 64, [](long it) {
    Pt P = PS[it % 4]; P2 Q = QS[3 + it % 5]; static std::map<int, F12> ref; F12 w[4] = {pairing()(P, Q), gpow(small(1)), F12(), F12()}; if (it % 4 == 0) { w[2] = pairing()(P, tw().g); w[3] = pairing()(sm9c().g, Q); } else { w[2] = eP(P); w[3] = eQ(Q); }
    for (int s = 0; s < 64; s++) for (int i = 0, x = s; i < 3; i++, x /= 4) { mc::at("order %ld step %ld", s, i); F12 g = x % 4 == 0 ? e(P, Q) : x % 4 == 1 ? (s & 1 ? eP(sm9c().g) : eQ(tw().g)) : x % 4 == 2 ? eP(P) : eQ(Q); mc::state(mc::hashv(6, it % 20, s, i)); OK(g == w[x % 4], "order of calls", "call %d of sequence %d", i, s); }
})
MC_MAIN
