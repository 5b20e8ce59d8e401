// access to the library's SM9 arithmetic through byte strings
#pragma once
#include "ref_sm9.h"
#include "sm2ref.h"
#include <gmlib/sm9/internal/sm9_field.h>
namespace s9 {
using namespace r9; using sm2r::cat; using sm2r::UNC; using sm2r::COM; using sm2r::MIX;
namespace I = ::sm9::internal;
inline void set(I::sm9_fp_t r, const N& v) { u8 b[32]; rn::put(b, v); I::sm9_fp_from_bytes(r, b); }
inline N get(const I::sm9_fp_t r) { u8 b[32]; I::sm9_fp_to_bytes(b, r); return rn::get(b); }
inline void set2(I::sm9_fp2_t r, const F2& v) { set(r[0], v.a); set(r[1], v.b); }
inline F2 get2(const I::sm9_fp2_t r) { return {get(r[0]), get(r[1])}; }
inline void set12(I::sm9_fp12_t r, const F12& v) { for (int c = 0; c < 3; c++) for (int b = 0; b < 2; b++) for (int a = 0; a < 2; a++) set(r[c][b][a], v.c[6 * a + 3 * b + c]); }
inline F12 get12(const I::sm9_fp12_t r) { F12 v; for (int c = 0; c < 3; c++) for (int b = 0; b < 2; b++) for (int a = 0; a < 2; a++) v.c[6 * a + 3 * b + c] = get(r[c][b][a]); return v; }
inline void set4(I::sm9_fp4_t r, const F12& v) { for (int b = 0; b < 2; b++) for (int a = 0; a < 2; a++) set(r[b][a], v.c[6 * a + 3 * b]); }
inline F12 get4(const I::sm9_fp4_t r) { F12 v = f12(); for (int b = 0; b < 2; b++) for (int a = 0; a < 2; a++) v.c[6 * a + 3 * b] = get(r[b][a]); return v; }
inline F12 lift2(const F2& x) { F12 v = f12(); v.c[0] = x.a; v.c[6] = x.b; return v; }
inline F2 low2(const F12& x) { return {x.c[0], x.c[6]}; }
inline F12 scalar(const N& x) { F12 v = f12(); v.c[0] = x; return v; }
inline F12 mono(const N& x, int e) { F12 v = f12(); v.c[e] = x; return v; }
// the two groups behind one interface
struct G1 {
    typedef Pt P; typedef N C; typedef I::sm9_ec_a A; typedef I::sm9_ec_j J; static constexpr int W = 32;
    static const Curve& c() { return sm9c(); } static P make(const C& x, const C& y) { return pt(x, y); } static std::string show(const P& p) { return re::str(p); }
    static C one() { return small(1); } static C zeroc() { return zero(); } static C mul(const C& a, const C& b) { return fm(a, b); } static C inv(const C& a) { return fi(a); } static bool is0(const C& a) { return rn::is0(a); }
    static void setc(I::sm9_fp_t r, const C& v) { set(r, v); } static C getc(const I::sm9_fp_t r) { return get(r); } static Bytes encc(const C& v) { return rn::bytes(v); } static N parity(const C& v) { return v; }
    static std::vector<C> zs() { return {small(1), small(2), rn::sub(P9(), 1), filler(77), pow2(255)}; }
    static void dbl(J r, const J p) { I::sm9_ec_j_dbl(r, p); } static void add(J r, const J p, const J q) { I::sm9_ec_j_add(r, p, q); } static void add_a(J r, const J p, const A q) { I::sm9_ec_j_add_a(r, p, q); }
    static void neg(J r, const J p) { I::sm9_ec_j_neg(r, p); } static void cpy(J r, const J p) { I::sm9_ec_j_cpy(r, p); } static void normal(J r, const J p) { I::sm9_ec_j_normal(r, p); } static bool is_inf(const J p) { return I::sm9_ec_j_is_inf(p); } static void set_inf(J r) { I::sm9_ec_j_set_inf(r); }
    static void to_a(A r, const J p) { I::sm9_ec_j_to_a(r, p); } static void from_a(J r, const A p) { I::sm9_ec_j_from_a(r, p); } static bool equal(const J p, const J q) { return I::sm9_ec_j_equal(p, q); } static bool z_one(const J p) { return I::sm9_fp_equal_one(p[2]); }
    static void mul_a(J r, const u8* k, const A p) { I::sm9_ec_j_mul_a(r, k, p); } static void mul_g(J r, const u8* k) { I::sm9_ec_j_mul_g(r, k); }
    static bool check(const A p) { return I::sm9_ec_a_check(p); } static void a_neg(A r, const A p) { I::sm9_ec_a_neg(r, p); } static void a_cpy(A r, const A p) { I::sm9_ec_a_cpy(r, p); }
    static void to04(u8* o, const A p) { I::sm9_ec_a_to_bytes04(o, p); } static void from04(A r, const u8* b) { I::sm9_ec_a_from_bytes04(r, b); } static void unc(u8* o, const A p) { I::sm9_ec_a_to_bytes_uncompressed(o, p); } static void com(u8* o, const A p) { I::sm9_ec_a_to_bytes_compressed(o, p); } static void mix(u8* o, const A p) { I::sm9_ec_a_to_bytes_mix(o, p); }
    static int from(A r, size_t* n, const u8* b, size_t l) { return I::sm9_ec_a_from_bytes(r, n, b, l); }
};
struct G2 {
    typedef P2 P; typedef F2 C; typedef I::sm9_ec2_a A; typedef I::sm9_ec2_j J; static constexpr int W = 64;
    static const Twist& c() { return tw(); } static P make(const C& x, const C& y) { return p2(x, y); } static std::string show(const P& p) { return r9::str(p); }
    static C one() { return f2(1); } static C zeroc() { return f2(0); } static C mul(const C& a, const C& b) { return a * b; } static C inv(const C& a) { return r9::inv(a); } static bool is0(const C& a) { return r9::is0(a); }
    static void setc(I::sm9_fp2_t r, const C& v) { set2(r, v); } static C getc(const I::sm9_fp2_t r) { return get2(r); } static Bytes encc(const C& v) { return r9::enc(v); } static N parity(const C& v) { return v.a; }
    static std::vector<C> zs() { return {f2(1), f2(2), f2(rn::sub(P9(), 1), zero()), f2(filler(77), filler(78)), f2(0, 1), f2(pow2(255), pow2(255))}; }
    static void dbl(J r, const J p) { I::sm9_ec2_j_dbl(r, p); } static void add(J r, const J p, const J q) { I::sm9_ec2_j_add(r, p, q); } static void add_a(J r, const J p, const A q) { I::sm9_ec2_j_add_a(r, p, q); }
    static void neg(J r, const J p) { I::sm9_ec2_j_neg(r, p); } static void cpy(J r, const J p) { I::sm9_ec2_j_cpy(r, p); } static void normal(J r, const J p) { I::sm9_ec2_j_normal(r, p); } static bool is_inf(const J p) { return I::sm9_ec2_j_is_inf(p); } static void set_inf(J r) { I::sm9_ec2_j_set_inf(r); }
    static void to_a(A r, const J p) { I::sm9_ec2_j_to_a(r, p); } static void from_a(J r, const A p) { I::sm9_ec2_j_from_a(r, p); } static bool equal(const J p, const J q) { return I::sm9_ec2_j_equal(p, q); } static bool z_one(const J p) { return I::sm9_fp2_equal_one(p[2]); }
    static void mul_a(J r, const u8* k, const A p) { I::sm9_ec2_j_mul_a(r, k, p); } static void mul_g(J r, const u8* k) { I::sm9_ec2_j_mul_g(r, k); }
    static bool check(const A p) { return I::sm9_ec2_a_check(p); } static void a_neg(A r, const A p) { I::sm9_ec2_a_neg(r, p); } static void a_cpy(A r, const A p) { I::sm9_ec2_a_cpy(r, p); }
    static void to04(u8* o, const A p) { I::sm9_ec2_a_to_bytes04(o, p); } static void from04(A r, const u8* b) { I::sm9_ec2_a_from_bytes04(r, b); } static void unc(u8* o, const A p) { I::sm9_ec2_a_to_bytes_uncompressed(o, p); } static void com(u8* o, const A p) { I::sm9_ec2_a_to_bytes_compressed(o, p); } static void mix(u8* o, const A p) { I::sm9_ec2_a_to_bytes_mix(o, p); }
    static int from(A r, size_t* n, const u8* b, size_t l) { return I::sm9_ec2_a_from_bytes(r, n, b, l); }
};
template <class G> void seta(typename G::A r, const typename G::P& p) { G::setc(r[0], p.x); G::setc(r[1], p.y); }
template <class G> typename G::P geta(const typename G::A r) { return G::make(G::getc(r[0]), G::getc(r[1])); }
template <class G> void setj(typename G::J r, const typename G::P& p, const typename G::C& z) { auto z2 = G::mul(z, z), z3 = G::mul(z2, z); G::setc(r[0], p.inf ? z2 : G::mul(p.x, z2)); G::setc(r[1], p.inf ? z3 : G::mul(p.y, z3)); G::setc(r[2], p.inf ? G::zeroc() : z); }
template <class G> typename G::P getj(const typename G::J j) { auto z = G::getc(j[2]); if (G::is0(z)) return typename G::P(); auto i = G::inv(z), i2 = G::mul(i, i); return G::make(G::mul(G::getc(j[0]), i2), G::mul(G::getc(j[1]), G::mul(i2, i))); }
template <class G> Bytes encp(const typename G::P& p, int f) { Bytes b; bool odd = G::parity(p.y).w[0] & 1; b.push_back((u8)(f == UNC ? 4 : f == COM ? 2 + odd : 6 + odd)); cat(b, G::encc(p.x)); if (f != COM) cat(b, G::encc(p.y)); return b; }
inline bool lift2(F2& y, const F2& x) // a square root of x^3 + 5u in Fp2, if any (either one)
{
    F2 v = x * x * x + tw().b; N p = P9(); auto sq = [&](const N& a, N& r) { u64 q[4]; N e = rn::add(p, 3); modw(e.w, 4, small(8), q); N k; memcpy(k.w, q, 32); r = powm(a, k, p); if (fm(r, r) == a) return true; e = rn::sub(p, 1); modw(e.w, 4, small(4), q); memcpy(k.w, q, 32); r = fm(r, powm(small(2), k, p)); return fm(r, r) == a; };
    N n = fa(fm(v.a, v.a), fm(small(2), fm(v.b, v.b))), s, half = fi(small(2)), a; if (!sq(n, s)) return false;
    for (int t = 0; t < 2; t++) { N d = fm(t ? fs(v.a, s) : fa(v.a, s), half); if (sq(d, a) && !rn::is0(a)) { y = {a, fm(v.b, fi(fa(a, a)))}; if (y * y == v) return true; } }
    N m = fm(fn(v.a), half); if (rn::is0(v.b) && sq(m, a)) { y = {zero(), a}; if (y * y == v) return true; }
    return false;
}
}
