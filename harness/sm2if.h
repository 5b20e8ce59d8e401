// access to the library's SM2 point arithmetic through byte strings
#pragma once
#include "sm2ref.h"
#include <gmlib/sm2/internal/sm2p256v1.h>
namespace s2 {
using namespace sm2r;
namespace I = ::sm2::internal;
inline void setp(I::sm2_ec_a r, const Pt& P) { u8 b[64]; rn::put(b, P.x); rn::put(b + 32, P.y); I::sm2_ec_a_from_bytes04(r, b); }
inline Pt getp(const I::sm2_ec_a a) { u8 b[64]; I::sm2_ec_a_to_bytes04(b, a); return pt(rn::get(b), rn::get(b + 32)); }
// Jacobian (x z^2, y z^3, z); infinity is (z^2, z^3, 0)
inline void setj(I::sm2_ec_j r, const Pt& P, const N& z)
{
    const Curve& c = sm2c(); N z2 = c.M(z, z), z3 = c.M(z2, z); u8 b[32];
    rn::put(b, P.inf ? z2 : c.M(P.x, z2)); I::sm2_fp_from_bytes(r[0], b);
    rn::put(b, P.inf ? z3 : c.M(P.y, z3)); I::sm2_fp_from_bytes(r[1], b);
    rn::put(b, P.inf ? zero() : z); I::sm2_fp_from_bytes(r[2], b);
}
inline Pt getj(const I::sm2_ec_j j)
{
    const Curve& c = sm2c(); u8 b[32]; I::sm2_fp_to_bytes(b, j[0]); N x = rn::get(b); I::sm2_fp_to_bytes(b, j[1]); N y = rn::get(b); I::sm2_fp_to_bytes(b, j[2]); N z = rn::get(b);
    if (is0(z)) return Pt(); N i = invm(z, c.p), i2 = c.M(i, i); return pt(c.M(x, i2), c.M(y, c.M(i2, i)));
}
}
