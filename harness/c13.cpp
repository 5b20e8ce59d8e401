// C13: SM2 group operations and scalar multiplication against complete projective formulas.
#include "sm2if.h"
using namespace s2;
static std::vector<N> SC; static std::vector<Pt> BASE;
static void bad(const char* key, const N& k, const Pt& P, const Pt& got, const Pt& want) { mc::fail(key, "k=%s P=%s: got %s want %s", rn::str(k).c_str(), re::str(P).c_str(), re::str(got).c_str(), re::str(want).c_str()); }
static void mul_case(const N& k, int bi, bool g)
{
    const Curve& c = re::sm2c(); const Pt& P = BASE[bi]; u8 kb[32]; rn::put(kb, k); Pt want = c.mul(k, P);
    struct { u64 pre; I::sm2_ec_j j; u64 post; } R; memset(&R, 0x5a, sizeof R); I::sm2_ec_a A; setp(A, P);
    I::sm2_ec_j_mul_a(R.j, kb, A); Pt got = getj(R.j); mc::eval(); mc::state(mc::hashv(1, rn::h(k), bi));
    if (got != want) bad("mul", k, P, got, want);
    if (R.pre != 0x5a5a5a5a5a5a5a5aull || R.post != R.pre || getp(A) != P) mc::fail("bounds", "scalar multiplication modified other memory");
    if (I::sm2_ec_j_is_inf(R.j) != want.inf) bad("is_inf", k, P, got, want);
    if (!want.inf) { I::sm2_ec_a O; I::sm2_ec_j_to_a(O, R.j); if (getp(O) != want) bad("to_a", k, P, getp(O), want); union { I::sm2_ec_a a; I::sm2_ec_j j; } u; I::sm2_ec_j_mul_a(u.j, kb, A); I::sm2_ec_j_to_a(u.a, u.j); if (getp(u.a) != want) bad("to_a in place", k, P, getp(u.a), want); }
    if (g) { I::sm2_ec_j T; I::sm2_ec_j_mul_g(T, kb); got = getj(T); mc::eval(); if (got != want) bad("mul_g", k, P, got, want); }
}
static void scalars()
{
    std::vector<N>& v = SC; const N n = SM2N(), z = zero(); u64 q[5]; N t;
    int w = mc::thorough() ? 400 : 120;
    neighbours(v, small(w), w); neighbours(v, n, w); neighbours(v, sub(z, 1 + w), w);
    for (u64 d : {2, 3, 4, 5, 6, 7}) { modw(n.w, 4, small(d), q); memcpy(t.w, q, 32); for (u64 m = 1; m < d; m++) { N s = zero(); for (u64 i = 0; i < m; i++) s = add(s, t); neighbours(v, s, 6); } }
    { u64 a[5] = {0, 0, 0, 0, 1}; modw(a, 5, small(3), q); memcpy(t.w, q, 32); neighbours(v, t, 12); a[4] = 2; modw(a, 5, small(3), q); memcpy(t.w, q, 32); neighbours(v, t, 12); } // 3k crosses 2^256, 2^257
    for (int i = 0; i < 256; i++) { neighbours(v, pow2(i), 2); v.push_back(sub(z, pow2(i))); v.push_back(sub(n, pow2(i))); v.push_back(sub(n, sub(pow2(i), 1))); }
    for (int i = 0; i < 64; i++) for (u64 d = 1; d < 16; d++) { N x = zero(); x.w[i / 16] = d << (4 * (i % 16)); v.push_back(x); v.push_back(sub(n, x)); }
    for (u64 p : {0x5555555555555555ull, 0x3333333333333333ull, 0x0f0f0f0f0f0f0f0full, 0x9249249249249249ull, 0x00ff00ff00ff00ffull, 0x0000ffff0000ffffull, 0x00000000ffffffffull, 0x1111111111111111ull}) for (int s = 0; s < 4; s++) { N x{{p << s, p << s, p << s, p << s}}; v.push_back(x); v.push_back(sub(sub(z, 1), x)); }
    int step = mc::thorough() ? 1 : 7; // runs of ones
    for (int i = 0; i < 256; i++) for (int j = (i * 3) % step; j < i; j += step) v.push_back(sub(pow2(i), pow2(j)));
    for (int i = 0; i < (mc::thorough() ? 2000 : 200); i++) v.push_back(filler(i + 7));
    uniq(v);
}
SETUP([] {
    const Curve& c = re::sm2c(); scalars();
    BASE.push_back(c.g); BASE.push_back(c.neg(c.g)); BASE.push_back(c.mulg(small(2))); BASE.push_back(c.mulg(filler(3)));
    N y; for (u64 x : {0, 1, 7}) for (int b = 0; b < 2; b++) if (c.lift(y, small(x), b)) BASE.push_back(pt(small(x), y));
    if (c.lift(y, sub(c.p, 2), 0)) BASE.push_back(pt(sub(c.p, 2), y));
    BASE.push_back(pt(hex("9c17043effe1a805a74a9a5e70b9d659705d3242094a566dc016f49311178d1f"), small(1)));
    BASE.push_back(pt(hex("9c17043effe1a805a74a9a5e70b9d659705d3242094a566dc016f49311178d1f"), sub(c.p, 1)));
    if (c.lift(y, c.n, 0)) BASE.push_back(pt(c.n, y)); else if (c.lift(y, add(c.n, 4), 0)) BASE.push_back(pt(add(c.n, 4), y));
    for (auto& b : BASE) if (!c.on(b)) { fprintf(stderr, "base point\n"); _exit(90); }
})
SCENARIO("generator", [] { return (long)SC.size() / 8 + 1; }, [](long it) { for (size_t i = it * 8; i < (size_t)it * 8 + 8 && i < SC.size(); i++) { mc::at("scalar %ld times G", i); mul_case(SC[i], 0, true); if (i == 100) mc::sample("[%s]G", rn::str(SC[i]).c_str()); } })
SCENARIO("points", [] { return (long)(BASE.size() - 1) * 64; }, [](long it) {
    int b = 1 + (int)(it / 64), step = mc::thorough() ? 1 : 9;
    for (size_t i = it % 64; i < SC.size(); i += 64) if ((i / 64) % step == (size_t)b % step || i < 128) { mc::at("scalar %ld base %ld", i, b); mul_case(SC[i], b, false); }
    if (it == 65) mc::sample("multiples of %s", re::str(BASE[b]).c_str()); })

// addition, doubling, negation, comparison over multiples of one point in several Jacobian forms
enum { R = 9 }; // -R..R times the base
static std::vector<N> zs() { return {small(1), small(2), sub(SM2P(), 1), filler(77), pow2(255)}; }
static void chkpt(const char* key, const Pt& got, const Pt& want, long i, long j) { mc::eval(); if (got != want) mc::fail(key, "%ldB and %ldB: got %s want %s", i, j, re::str(got).c_str(), re::str(want).c_str()); }
SCENARIO("group", 3 * (2 * R + 1), [](long it) {
    const Curve& c = re::sm2c(); int i = (int)(it % (2 * R + 1)) - R; const Pt& B = BASE[it / (2 * R + 1) * 3];
    std::vector<Pt> M(2 * R + 1); for (int k = 0; k <= R; k++) { M[R + k] = c.mul(small(k), B); M[R - k] = c.neg(M[R + k]); }
    auto Z = zs(); const Pt& P = M[i + R];
    for (size_t z1 = 0; z1 < Z.size(); z1++) {
        I::sm2_ec_j p, r, t; setj(p, P, Z[z1]); mc::at("base %ld: %ldB, form %ld", it / (2 * R + 1), i, z1);
        memset(r, 0x5a, sizeof r); I::sm2_ec_j_dbl(r, p); chkpt("dbl", getj(r), c.add2(P, P), i, i);
        I::sm2_ec_j_cpy(t, p); I::sm2_ec_j_dbl(t, t); chkpt("dbl in place", getj(t), c.add2(P, P), i, i);
        I::sm2_ec_j_neg(r, p); chkpt("neg", getj(r), c.neg(P), i, i); I::sm2_ec_j_cpy(t, p); I::sm2_ec_j_neg(t, t); chkpt("neg in place", getj(t), c.neg(P), i, i);
        I::sm2_ec_j_normal(r, p); chkpt("normal", getj(r), P, i, i); if (!P.inf && !I::sm2_fp_equal_one(r[2])) mc::fail("normal", "z is not one"); I::sm2_ec_j_cpy(t, p); I::sm2_ec_j_normal(t, t); chkpt("normal in place", getj(t), P, i, i);
        if (I::sm2_ec_j_is_inf(p) != P.inf) mc::fail("is_inf", "%ldB", (long)i);
        I::sm2_ec_a a, na;
        if (!P.inf) { I::sm2_ec_j_to_a(a, p); if (getp(a) != P) mc::fail("to_a", "%ldB", (long)i); I::sm2_ec_a_neg(na, a); if (getp(na) != c.neg(P)) mc::fail("neg affine", "%ldB", (long)i); I::sm2_ec_a_cpy(na, a); I::sm2_ec_a_neg(na, na); if (getp(na) != c.neg(P)) mc::fail("neg affine in place", "%ldB", (long)i); I::sm2_ec_j_from_a(r, a); chkpt("from_a", getj(r), P, i, i); if (!I::sm2_ec_a_check(a)) mc::fail("check", "a curve point is rejected"); }
        I::sm2_ec_j_set_inf(r); if (!I::sm2_ec_j_is_inf(r)) mc::fail("set_inf", "not infinity");
        for (int j = -R; j <= R; j++) for (size_t z2 = 0; z2 < Z.size(); z2++) {
            const Pt& Q = M[j + R]; Pt S = c.add2(P, Q); I::sm2_ec_j q; setj(q, Q, Z[z2]); mc::at("base %ld: %ldB + %ldB, forms %ld %ld", it / (2 * R + 1), i, j, z1, z2);
            mc::state(mc::hashv(2, it, j, z1, z2));
            memset(r, 0x5a, sizeof r); I::sm2_ec_j_add(r, p, q); chkpt("add", getj(r), S, i, j);
            I::sm2_ec_j_cpy(t, p); I::sm2_ec_j_add(t, t, q); chkpt("add r=a", getj(t), S, i, j);
            I::sm2_ec_j_cpy(t, q); I::sm2_ec_j_add(t, p, t); chkpt("add r=b", getj(t), S, i, j);
            if (I::sm2_ec_j_equal(p, q) != (P == Q)) mc::fail("equal", "%ldB and %ldB compare wrongly", (long)i, (long)j);
            if (z2 == 0 && !Q.inf) {
                setp(a, Q); I::sm2_ec_j_add_a(r, p, a); chkpt("add_a", getj(r), S, i, j); I::sm2_ec_j_cpy(t, p); I::sm2_ec_j_add_a(t, t, a); chkpt("add_a r=a", getj(t), S, i, j);
            }
        }
        I::sm2_ec_j_cpy(t, p); I::sm2_ec_j_add(t, t, t); chkpt("add r=a=b", getj(t), c.add2(P, P), i, i);
    }
    if (it == 4) mc::sample("all sums iB+jB, |i|,|j|<=%d, %zu Jacobian forms each", (int)R, Z.size()); })
// membership: every neighbour of a curve point is off the curve
SCENARIO("membership", 64, [](long it) {
    const Curve& c = re::sm2c(); long n = 0;
    for (auto& B : BASE) for (int co = 0; co < 2; co++) for (int b = 0; b < 256; b++) if (n++ % 64 == it) {
        Pt q = B; N& v = co ? q.y : q.x; v.w[b / 64] ^= (u64)1 << (b % 64); if (!(v < c.p)) continue;
        I::sm2_ec_a a; setp(a, q); mc::at("coordinate %ld bit %ld", co, b); mc::eval(); mc::state(mc::hashv(3, n)); if (I::sm2_ec_a_check(a) != c.on(q)) mc::fail("check", "membership of %s is judged wrongly", re::str(q).c_str());
    } })
MC_MAIN
