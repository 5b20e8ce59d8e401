// Reference short-Weierstrass arithmetic y^2 = x^3 + ax + b over a prime field, prime order:
// complete projective formulas (Renes, Costello, Batina 2016, algorithm 1), plain double and add.
#pragma once
#include "ref_num.h"
namespace re {
using namespace rn;
struct Pt { N x, y; bool inf = true; };
inline bool operator==(const Pt& a, const Pt& b) { return a.inf == b.inf && (a.inf || (a.x == b.x && a.y == b.y)); }
inline bool operator!=(const Pt& a, const Pt& b) { return !(a == b); }
inline Pt pt(const N& x, const N& y) { Pt r; r.x = x; r.y = y; r.inf = false; return r; }
inline std::string str(const Pt& a) { return a.inf ? "infinity" : "(" + rn::str(a.x) + "," + rn::str(a.y) + ")"; }
struct Curve {
    N p, a, b, n; Pt g;
    struct J { N x, y, z; };
    N M(const N& u, const N& v) const { return mulm(u, v, p); }
    N A(const N& u, const N& v) const { int c; N r = add(u, v, &c); if (c || !(r < p)) r = sub(r, p); return r; }
    N S(const N& u, const N& v) const { return subm(u, v, p); }
    bool on(const Pt& q) const { if (q.inf) return true; return M(q.y, q.y) == A(A(M(M(q.x, q.x), q.x), M(a, q.x)), b); }
    J proj(const Pt& q) const { if (q.inf) return J{zero(), small(1), zero()}; return J{q.x, q.y, small(1)}; }
    Pt aff(const J& q) const { if (is0(q.z)) return Pt(); N i = invm(q.z, p); return pt(M(q.x, i), M(q.y, i)); }
    J addj(const J& P, const J& Q) const
    {
        N b3 = A(A(b, b), b);
        N t0 = M(P.x, Q.x), t1 = M(P.y, Q.y), t2 = M(P.z, Q.z), t3 = M(A(P.x, P.y), A(Q.x, Q.y)), t4, t5, X, Y, Z;
        t3 = S(t3, A(t0, t1)); t4 = S(M(A(P.x, P.z), A(Q.x, Q.z)), A(t0, t2)); t5 = S(M(A(P.y, P.z), A(Q.y, Q.z)), A(t1, t2));
        Z = A(M(b3, t2), M(a, t4)); X = S(t1, Z); Z = A(t1, Z); Y = M(X, Z);
        t1 = A(A(t0, t0), t0); t2 = M(a, t2); t4 = M(b3, t4); t1 = A(t1, t2); t2 = M(a, S(t0, t2)); t4 = A(t4, t2);
        Y = A(Y, M(t1, t4)); X = S(M(t3, X), M(t5, t4)); Z = A(M(t5, Z), M(t3, t1));
        return J{X, Y, Z};
    }
    Pt add2(const Pt& P, const Pt& Q) const { return aff(addj(proj(P), proj(Q))); }
    Pt neg(const Pt& P) const { Pt r = P; if (!r.inf) r.y = negm(r.y, p); return r; }
    Pt mul(const N& k, const Pt& P) const { J r = proj(Pt()), q = proj(P); for (int i = bits(k) - 1; i >= 0; i--) { r = addj(r, r); if (bit(k, i)) r = addj(r, q); } return aff(r); }
    Pt mulg(const N& k) const { return mul(k, g); }
    // [k]g + [l]q
    Pt mul2(const N& k, const N& l, const Pt& Q) const { J r = proj(Pt()), q = proj(Q), gg = proj(g), s = addj(q, gg); int n = bits(k), m = bits(l); for (int i = (n > m ? n : m) - 1; i >= 0; i--) { r = addj(r, r); bool x = bit(k, i), y = bit(l, i); if (x && y) r = addj(r, s); else if (x) r = addj(r, gg); else if (y) r = addj(r, q); } return aff(r); }
    N rhs(const N& x) const { return A(A(M(M(x, x), x), M(a, x)), b); }
    // points with this x that satisfy a slightly wrong equation (sign, constant or coefficient changed)
    void off(std::vector<Pt>& out, const N& xx) const
    {
        N x = mod(xx, p), f = rhs(x), x3 = M(M(x, x), x), ax = M(a, x), y; std::vector<N> w = {negm(f, p), A(f, small(1)), S(f, small(1)), A(f, f), A(f, b), S(f, b), S(S(f, b), b), S(f, ax), S(S(f, ax), ax), A(f, ax), A(f, x), S(f, x), S(f, x3), S(S(f, x3), x3), A(f, x3), A(S(f, x3), M(x, x)), M(f, f), M(f, x), A(M(x, x), b), b, x3, ax, x, small(1), sub(p, 1), A(f, small(3)), S(f, small(3)), A(f, sub(zero(), p)), S(f, sub(zero(), p))};
        for (auto& v : w) if (root(y, v)) for (int s = 0; s < 2; s++) { Pt q = pt(x, s ? negm(y, p) : y); if (!on(q)) out.push_back(q); }
    }
    bool lift(N& y, const N& x, int parity) const
    {
        N r; if (!root(r, rhs(x))) return false;
        if ((int)(r.w[0] & 1) != parity) { r = negm(r, p); if ((int)(r.w[0] & 1) != parity) return false; }
        y = r; return true;
    }
    bool root(N& y, const N& v) const // p = 3 mod 4 (SM2) or 5 mod 8 (SM9)
    {
        N r;
        if ((p.w[0] & 3) == 3) { N e = add(p, 1); u64 q[4]; modw(e.w, 4, small(4), q); N qq; memcpy(qq.w, q, 32); r = powm(v, qq, p); }
        else { // p = 5 mod 8: r = v^((p+3)/8), times 2^((p-1)/4) if needed
            N e = add(p, 3); u64 q[4]; modw(e.w, 4, small(8), q); N qq; memcpy(qq.w, q, 32); r = powm(v, qq, p);
            if (M(r, r) != v) { e = sub(p, 1); modw(e.w, 4, small(4), q); memcpy(qq.w, q, 32); r = M(r, powm(small(2), qq, p)); }
        }
        y = r; return M(r, r) == v;
    }
    void selftest() const { Pt q = mul(n, g); if (!on(g) || !q.inf || mul(sub(n, 1), g) != neg(g) || mul(small(5), g) != add2(g, add2(add2(g, g), add2(g, g)))) { fprintf(stderr, "reference curve self test\n"); _exit(90); } }
};
inline const Curve& sm2c()
{
    static Curve c = [] { Curve k; k.p = SM2P(); k.n = SM2N(); k.a = sub(k.p, 3); k.b = hex("28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93");
        k.g = pt(hex("32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7"), hex("BC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0")); k.selftest(); return k; }();
    return c;
}
inline const Curve& sm9c()
{
    static Curve c = [] { Curve k; k.p = SM9P(); k.n = SM9N(); k.a = zero(); k.b = small(5);
        k.g = pt(hex("93DE051D62BF718FF5ED0704487D01D6E1E4086909DC3280E8C4E4817C66DDDD"), hex("21FE8DDA4F21E607631065125C395BBC1C1C00CBFA6024350C464CD70A3EA616")); k.selftest(); return k; }();
    return c;
}
} // namespace re
