// SM9 fields, twist and pairing written from the definition: Fp12 = Fp[w]/(w^12 + 2), the
// twist y^2 = x^3 + 5u over Fp2 = Fp[u]/(u^2 + 2), u = w^6, untwisting (x, y) -> (x/w^2, y/w^3),
// R-ate pairing with affine Miller steps and one plain exponentiation by (p^12 - 1)/N.
#pragma once
#include "ref_ec.h"
namespace r9 {
using namespace re; using mc::Bytes;
inline const N& P9() { return SM9P(); }
inline const N& N9() { return SM9N(); }
inline N fm(const N& a, const N& b) { return mulm(a, b, SM9P()); }
inline N fa(const N& a, const N& b) { int c; N r = rn::add(a, b, &c); if (c || !(r < SM9P())) r = rn::sub(r, SM9P()); return r; }
inline N fs(const N& a, const N& b) { return subm(a, b, SM9P()); }
inline N fn(const N& a) { return negm(a, SM9P()); }
inline N fi(const N& a) { return invm(a, SM9P()); }
// Fp2
struct F2 { N a, b; };                       // a + b u
inline bool operator==(const F2& x, const F2& y) { return x.a == y.a && x.b == y.b; }
inline bool operator!=(const F2& x, const F2& y) { return !(x == y); }
inline F2 f2(const N& a, const N& b) { return F2{a, b}; }
inline F2 f2(u64 a, u64 b = 0) { return F2{small(a), small(b)}; }
inline F2 operator+(const F2& x, const F2& y) { return {fa(x.a, y.a), fa(x.b, y.b)}; }
inline F2 operator-(const F2& x, const F2& y) { return {fs(x.a, y.a), fs(x.b, y.b)}; }
inline F2 operator*(const F2& x, const F2& y) { N t = fm(x.b, y.b); return {fs(fm(x.a, y.a), fa(t, t)), fa(fm(x.a, y.b), fm(x.b, y.a))}; }
inline F2 neg(const F2& x) { return {fn(x.a), fn(x.b)}; }
inline bool is0(const F2& x) { return rn::is0(x.a) && rn::is0(x.b); }
inline F2 conj(const F2& x) { return {x.a, fn(x.b)}; }
inline F2 inv(const F2& x) { N n = fa(fm(x.a, x.a), fm(small(2), fm(x.b, x.b))), i = fi(n); return {fm(x.a, i), fm(fn(x.b), i)}; }
inline std::string str(const F2& x) { return "(" + rn::str(x.a) + "+" + rn::str(x.b) + "u)"; }
inline u64 h(const F2& x) { return mc::hashv(rn::h(x.a), rn::h(x.b)); }
// twist
struct P2 { F2 x, y; bool inf = true; };
inline P2 p2(const F2& x, const F2& y) { P2 r; r.x = x; r.y = y; r.inf = false; return r; }
inline bool operator==(const P2& a, const P2& b) { return a.inf == b.inf && (a.inf || (a.x == b.x && a.y == b.y)); }
inline bool operator!=(const P2& a, const P2& b) { return !(a == b); }
inline std::string str(const P2& p) { return p.inf ? "infinity" : "(" + str(p.x) + "," + str(p.y) + ")"; }
struct Twist {
    struct J { F2 x, y, z; };
    F2 b; P2 g;
    bool on(const P2& q) const { return q.inf || q.y * q.y == q.x * q.x * q.x + b; }
    J proj(const P2& q) const { return q.inf ? J{f2(0), f2(1), f2(0)} : J{q.x, q.y, f2(1)}; }
    P2 aff(const J& q) const { if (is0(q.z)) return P2(); F2 i = inv(q.z); return p2(q.x * i, q.y * i); }
    J addj(const J& P, const J& Q) const // Renes-Costello-Batina algorithm 7, a = 0
    {
        F2 b3 = b + b + b, t0 = P.x * Q.x, t1 = P.y * Q.y, t2 = P.z * Q.z, t3 = (P.x + P.y) * (Q.x + Q.y) - (t0 + t1), t4 = (P.y + P.z) * (Q.y + Q.z) - (t1 + t2), y3 = (P.x + P.z) * (Q.x + Q.z) - (t0 + t2);
        t0 = t0 + t0 + t0; t2 = b3 * t2; F2 z3 = t1 + t2; t1 = t1 - t2; y3 = b3 * y3;
        return J{t3 * t1 - t4 * y3, t1 * z3 + y3 * t0, z3 * t4 + t0 * t3};
    }
    P2 add2(const P2& P, const P2& Q) const { return aff(addj(proj(P), proj(Q))); }
    P2 neg(const P2& P) const { P2 r = P; if (!r.inf) r.y = r9::neg(r.y); return r; }
    P2 mul(const N& k, const P2& P) const { J r = proj(P2()), q = proj(P); for (int i = bits(k) - 1; i >= 0; i--) { r = addj(r, r); if (bit(k, i)) r = addj(r, q); } return aff(r); }
    P2 mulg(const N& k) const { return mul(k, g); }
};
// Fp12 as polynomials in w
struct F12 { N c[12]; };
inline bool operator==(const F12& x, const F12& y) { for (int i = 0; i < 12; i++) if (x.c[i] != y.c[i]) return false; return true; }
inline bool operator!=(const F12& x, const F12& y) { return !(x == y); }
inline F12 f12() { F12 r; for (auto& c : r.c) c = zero(); return r; }
inline F12 f12one() { F12 r = f12(); r.c[0] = small(1); return r; }
inline F12 operator+(const F12& x, const F12& y) { F12 r; for (int i = 0; i < 12; i++) r.c[i] = fa(x.c[i], y.c[i]); return r; }
inline F12 operator-(const F12& x, const F12& y) { F12 r; for (int i = 0; i < 12; i++) r.c[i] = fs(x.c[i], y.c[i]); return r; }
inline F12 operator*(const F12& x, const F12& y)
{
    static const N p = SM9P(); u64 s[23][9]; memset(s, 0, sizeof s); bool zx[12], zy[12]; for (int i = 0; i < 12; i++) zx[i] = rn::is0(x.c[i]), zy[i] = rn::is0(y.c[i]);
    for (int i = 0; i < 12; i++) if (!zx[i]) for (int j = 0; j < 12; j++) if (!zy[j]) { u64 t[9]; mulw(t, x.c[i].w, 4, y.c[j].w, 4); t[8] = 0; addw(s[i + j], s[i + j], t, 9); }
    auto red = [](const u64* t) { u64 o = 0; for (int i = 0; i < 9; i++) o |= t[i]; return o ? modw(t, 9, p) : zero(); };
    F12 r; for (int k = 0; k < 12; k++) { N lo = red(s[k]); if (k < 11) { N hi = red(s[k + 12]); r.c[k] = fs(lo, fa(hi, hi)); } else r.c[k] = lo; }
    return r;
}
inline F12 power(const F12& a, const u64* e, int words) { F12 r = f12one(); bool on = false; for (int i = words * 64 - 1; i >= 0; i--) { if (on) r = r * r; if (e[i / 64] >> (i % 64) & 1) { r = on ? r * a : a; on = true; } } return r; }
inline F12 power(const F12& a, const N& e) { return power(a, e.w, 4); }
inline u64 h(const F12& a) { return mc::hash(a.c, sizeof a.c); }
inline std::string str(const F12& a) { std::string s; for (int i = 0; i < 12; i++) s += (i ? "," : "[") + (rn::is0(a.c[i]) ? std::string("0") : rn::str(a.c[i])); return s + "]"; }
// byte strings of GB/T 38635: high coefficients first; element order of the tower [c][b][a] = w^(6a+3b+c)
inline Bytes enc(const F12& a) { Bytes o; for (int c = 2; c >= 0; c--) for (int b = 1; b >= 0; b--) for (int d = 1; d >= 0; d--) { Bytes t = rn::bytes(a.c[6 * d + 3 * b + c]); o.insert(o.end(), t.begin(), t.end()); } return o; }
inline F12 dec12(const u8* p) { F12 r; for (int c = 2; c >= 0; c--) for (int b = 1; b >= 0; b--) for (int d = 1; d >= 0; d--) { r.c[6 * d + 3 * b + c] = get(p); p += 32; } return r; }
inline Bytes enc(const F2& a) { Bytes o = rn::bytes(a.b), t = rn::bytes(a.a); o.insert(o.end(), t.begin(), t.end()); return o; }
inline F2 dec2(const u8* p) { return {get(p + 32), get(p)}; }
inline const Twist& tw()
{
    static Twist c = [] { Twist k; k.b = f2(0, 5);
        k.g = p2(f2(hex("3722755292130B08D2AAB97FD34EC120EE265948D19C17ABF9B7213BAF82D65B"), hex("85AEF3D078640C98597B6027B441A01FF1DD2C190F5E93C454806C11D8806141")),
                 f2(hex("A7CF28D519BE3DA65F3170153D278FF247EFBA98A71A08116215BBA5C999A7C7"), hex("17509B092E845C1266BA0D262CBEE6ED0736A96FA347C8BD856DC76B84EBEB96")));
        if (!k.on(k.g) || !k.mul(N9(), k.g).inf) { fprintf(stderr, "reference twist self test\n"); _exit(90); } return k; }();
    return c;
}
// R-ate pairing
struct Pairing {
    N g[12];                                 // Frobenius: w^p = w * g1, g[i] = g1^i
    u64 fe[48]; int few;                     // (p^12 - 1) / N
    Pairing()
    {
        u64 q[64]; N p = SM9P(), e = rn::sub(p, 1); N r = modw(e.w, 4, small(12), q); if (!rn::is0(r)) { fprintf(stderr, "p mod 12\n"); _exit(90); }
        N qq; memcpy(qq.w, q, 32); N g1 = powm(fn(small(2)), qq, p); g[0] = small(1); for (int i = 1; i < 12; i++) g[i] = fm(g[i - 1], g1);
        u64 a[48] = {1}, t[52]; int n = 1; for (int i = 0; i < 12; i++) { mulw(t, a, n, p.w, 4); n += 4; if (n > 48) n = 48; memcpy(a, t, n * 8); }
        a[0] -= 1; N rem = modw(a, 48, SM9N(), q); if (!rn::is0(rem)) { fprintf(stderr, "p^12-1 mod N\n"); _exit(90); } memcpy(fe, q, sizeof fe); few = 48;
    }
    F12 frob(const F12& x) const { F12 r; for (int i = 0; i < 12; i++) r.c[i] = fm(x.c[i], g[i]); return r; }
    P2 frob(const P2& q) const { N i2 = fi(g[2]), i3 = fi(g[3]); F2 x = conj(q.x), y = conj(q.y); return p2(x * f2(i2, zero()), y * f2(i3, zero())); }
    static void put(F12& f, const F2& v, int e) { // f += v * w^e, e may be negative (w^-1 = -w^11/2)
        static const N half = fi(fn(small(2))); F2 x = v; N s = small(1); while (e < 0) { e += 12; s = fm(s, half); } 
        auto at = [&](int k, N c) { while (k >= 12) { k -= 12; c = fm(c, fn(small(2))); } f.c[k] = fa(f.c[k], c); };
        at(e, fm(x.a, s)); at(e + 6, fm(x.b, s));
    }
    // line through the untwisted T and R (or tangent) at P; T becomes the sum
    F12 line(P2& T, const P2& R, const Pt& P) const
    {
        F2 l; if (T == R) l = (f2(3) * T.x * T.x) * inv(f2(2) * T.y); else { if (T.x == R.x) { fprintf(stderr, "vertical line\n"); _exit(90); } l = (R.y - T.y) * inv(R.x - T.x); }
        F12 f = f12(); f.c[0] = P.y; put(f, neg(T.y), -3); put(f, neg(l * f2(P.x, zero())), -1); put(f, l * T.x, -3);
        F2 x = l * l - T.x - R.x, y = l * (T.x - x) - T.y; T = p2(x, y); return f;
    }
    F12 miller(const Pt& P, const P2& Q) const
    {
        // a = 6t + 2, t = 600000000058F98A
        N a = hex("2400000000215D93E"); P2 T = Q; F12 f = f12one();
        for (int i = bits(a) - 2; i >= 0; i--) { f = f * f; P2 S = T; f = f * line(T, S, P); if (bit(a, i)) f = f * line(T, Q, P); }
        P2 Q1 = frob(Q), Q2 = frob(Q1); Q2.y = neg(Q2.y); f = f * line(T, Q1, P); f = f * line(T, Q2, P); return f;
    }
    F12 operator()(const Pt& P, const P2& Q) const { return power(miller(P, Q), fe, few); }
};
inline const Pairing& pairing() { static Pairing p; return p; }
inline const F12& gt() { static F12 g = pairing()(sm9c().g, tw().g); return g; }
} // namespace r9
