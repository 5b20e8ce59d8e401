// C12: Montgomery arithmetic modulo the SM2/SM9 primes and orders against plain modular arithmetic.
#include "ref_num.h"
#include <gmlib/number/mont256.h>
#include <gmlib/number/uint256.h>
using namespace rn;
#if defined(CPU_FLAG_MOVBE) && defined(CPU_FLAG_BMI2)
typedef u64 limb;
#else
typedef u32 limb;
#endif
enum { L = 32 / sizeof(limb) };
struct El { u64 pre; alignas(8) limb v[L]; u64 post; El() { memset(this, 0xC3, sizeof *this); } void dirty() { memset(v, 0x5A, 32); } bool ok() const { return pre == 0xC3C3C3C3C3C3C3C3ull && post == pre; } };
struct Field {
    N p, r, rinv; limb P[L], P2[L], R[L], RR[L]; number::Mont256CTX ctx;
    std::vector<N> vals, pows;
    void from(El& e, const N& a) const { u8 b[32]; put(b, a); number::mont256_from_bytes(&ctx, e.v, b); }
    N to(const El& e) const { u8 b[32]; number::mont256_to_bytes(&ctx, b, e.v); return get(b); }
};
static Field FLD[4]; static const char* NAME[4] = {"SM2 p", "SM2 n", "SM9 p", "SM9 N"};
static std::vector<N> A32;
SETUP([] {
    N ms[4] = {SM2P(), SM2N(), SM9P(), SM9N()};
    A32 = words32({0, 1, 0xffffffffu});
    for (int k = 0; k < 4; k++) {
        Field& f = FLD[k]; f.p = ms[k];
        N r0 = sub(zero(), f.p); f.r = mod(r0, f.p); // 2^256 mod p
        N rr = mulm(f.r, f.r, f.p), p2 = sub(f.p, 2); f.rinv = invm(f.r, f.p);
        memcpy(f.P, f.p.w, 32); memcpy(f.P2, p2.w, 32); memcpy(f.R, f.r.w, 32); memcpy(f.RR, rr.w, 32);
        f.ctx = {f.P, f.P2, f.R, f.RR, number::mont_compute_N_(f.P[0])};
        // values as written, and values whose internal (Montgomery) form is as written
        std::vector<N> e; for (int i = 0; i < 256; i += 1) { e.push_back(pow2(i)); e.push_back(sub(pow2(i), 1)); e.push_back(sub(f.p, pow2(i))); }
        for (int i = 0; i < 8; i++) { e.push_back(small(i)); e.push_back(sub(f.p, (u64)i + 1)); e.push_back(filler(i)); }
        u64 q[4]; for (u64 d : {2, 3, 4, 5, 7}) { modw(f.p.w, 4, small(d), q); N x; memcpy(x.w, q, 32); neighbours(e, x, 2); neighbours(e, sub(f.p, x), 2); }
        for (auto& x : words64({0, 1, 0xfffffffffffffffeull, ~0ull})) e.push_back(x);
        neighbours(e, f.r, 2); neighbours(e, rr, 1);
        std::vector<N> v;
        for (auto& x : e) if (x < f.p) { v.push_back(x); v.push_back(mulm(x, f.rinv, f.p)); }
        uniq(v); f.vals = v;
    }
})
static void bad(const Field& f, const char* op, const N& a, const N& b, const std::string& m) { mc::fail(op, "%s modulo %s: %s with %s: %s", op, NAME[&f - FLD], str(a).c_str(), str(b).c_str(), m.c_str()); }
// result e must be the unique residue `want`
static void chk(const Field& f, const char* op, const N& a, const N& b, const El& e, const N& want)
{
    mc::eval();
    N g = f.to(e); if (g != want) bad(f, op, a, b, "got " + str(g) + " want " + str(want));
    El w; f.from(w, want);
    if (memcmp(w.v, e.v, 32)) bad(f, op, a, b, "the result is not the canonical representation of " + str(want));
    if (!e.ok()) bad(f, op, a, b, "a write outside the operands");
}
static void pair(const Field& f, const N& a, const N& b, const El& ea, const El& eb, bool full)
{
    El x = ea, y = eb, r; const auto* c = &f.ctx;
    N s = addm(a, b, f.p), d = subm(a, b, f.p), m = mulm(a, b, f.p);
    r.dirty(); number::mont256_add(c, r.v, x.v, y.v); chk(f, "add", a, b, r, s);
    r.dirty(); number::mont256_sub(c, r.v, x.v, y.v); chk(f, "sub", a, b, r, d);
    r.dirty(); number::mont256_mul(c, r.v, x.v, y.v); chk(f, "mul", a, b, r, m);
    if (number::mont256_equal(c, x.v, y.v) != (a == b)) bad(f, "equal", a, b, "wrong");
    if (memcmp(x.v, ea.v, 32) || memcmp(y.v, eb.v, 32)) bad(f, "input", a, b, "an input operand was modified");
    if (!full) return;
    number::mont256_add(c, x.v, x.v, y.v); chk(f, "add r=a", a, b, x, s); x = ea;
    number::mont256_add(c, y.v, x.v, y.v); chk(f, "add r=b", a, b, y, s); y = eb;
    number::mont256_sub(c, x.v, x.v, y.v); chk(f, "sub r=a", a, b, x, d); x = ea;
    number::mont256_sub(c, y.v, x.v, y.v); chk(f, "sub r=b", a, b, y, d); y = eb;
    number::mont256_mul(c, x.v, x.v, y.v); chk(f, "mul r=a", a, b, x, m); x = ea;
    number::mont256_mul(c, y.v, x.v, y.v); chk(f, "mul r=b", a, b, y, m);
}
static void unary(const Field& f, const N& a)
{
    El x, r, e; const auto* c = &f.ctx; f.from(e, a); x = e; N z = zero();
    chk(f, "from/to bytes", a, z, x, a);
    N s = addm(a, a, f.p), t = addm(s, a, f.p), n = negm(a, f.p), q = mulm(a, a, f.p);
    N hf = mulm(a, invm(small(2), f.p), f.p);
    r.dirty(); number::mont256_dbl(c, r.v, x.v); chk(f, "dbl", a, z, r, s); number::mont256_dbl(c, x.v, x.v); chk(f, "dbl r=a", a, z, x, s); x = e;
    r.dirty(); number::mont256_tpl(c, r.v, x.v); chk(f, "tpl", a, z, r, t); number::mont256_tpl(c, x.v, x.v); chk(f, "tpl r=a", a, z, x, t); x = e;
    r.dirty(); number::mont256_neg(c, r.v, x.v); chk(f, "neg", a, z, r, n); number::mont256_neg(c, x.v, x.v); chk(f, "neg r=a", a, z, x, n); x = e;
    r.dirty(); number::mont256_sqr(c, r.v, x.v); chk(f, "sqr", a, z, r, q); number::mont256_sqr(c, x.v, x.v); chk(f, "sqr r=a", a, z, x, q); x = e;
    r.dirty(); number::mont256_div2(c, r.v, x.v); chk(f, "div2", a, z, r, hf); number::mont256_div2(c, x.v, x.v); chk(f, "div2 r=a", a, z, x, hf); x = e;
    number::mont256_add(c, x.v, x.v, x.v); chk(f, "add r=a=b", a, a, x, s); x = e;
    number::mont256_sub(c, x.v, x.v, x.v); chk(f, "sub r=a=b", a, a, x, z); x = e;
    number::mont256_mul(c, x.v, x.v, x.v); chk(f, "mul r=a=b", a, a, x, q); x = e;
    r.dirty(); number::mont256_cpy(c, r.v, x.v); chk(f, "cpy", a, z, r, a);
    if (number::mont256_equal_zero(c, x.v) != is0(a)) bad(f, "equal_zero", a, z, "wrong");
    if (number::mont256_equal_one(c, x.v) != (a == small(1))) bad(f, "equal_one", a, z, "wrong");
    r.dirty(); number::mont256_set_zero(c, r.v); chk(f, "set_zero", a, z, r, z);
    r.dirty(); number::mont256_set_one(c, r.v); chk(f, "set_one", a, z, r, small(1));
    // canonical zero from every operation that can produce it
    number::mont256_neg(c, r.v, x.v); number::mont256_add(c, r.v, r.v, x.v); chk(f, "a + -a", a, z, r, z);
    if (!number::mont256_equal_zero(c, r.v)) bad(f, "equal_zero", a, z, "a + (-a) is not zero");
}
static void inverse(const Field& f, const N& a)
{
    if (is0(a)) return;
    El x, r; f.from(x, a); r.dirty(); N z = zero(); number::mont256_inv(&f.ctx, r.v, x.v); N w = invm(a, f.p);
    chk(f, "inv", a, z, r, w); number::mont256_inv(&f.ctx, x.v, x.v); chk(f, "inv r=a", a, z, x, w);
}
static void power(const Field& f, const N& a, const N& e)
{
    El x, r; f.from(x, a); r.dirty(); limb ex[L]; memcpy(ex, e.w, 32); N w = powm(a, e, f.p);
    if (is0(a) && is0(e)) return; // 0^0 is not defined
    number::mont256_pow(&f.ctx, r.v, x.v, ex); chk(f, "pow", a, e, r, w);
    number::mont256_pow(&f.ctx, x.v, x.v, ex); chk(f, "pow r=a", a, e, x, w);
    if (memcmp(ex, e.w, 32)) bad(f, "pow", a, e, "the exponent was modified");
}
static const std::vector<El>& els(int k) { static std::vector<El> c[4]; if (c[k].empty()) for (auto& v : FLD[k].vals) { El e; FLD[k].from(e, v); c[k].push_back(e); } return c[k]; }
SCENARIO("pairs", [] { long n = 0; for (auto& f : FLD) n += f.vals.size(); return n; }, [](long it) {
    int k = 0; while (it >= (long)FLD[k].vals.size()) it -= FLD[k++].vals.size();
    const Field& f = FLD[k]; auto& E = els(k); mc::at("modulus %ld row %ld", k, it);
    long step = mc::thorough() ? 1 : 2, full = mc::thorough() ? 1 : 7;
    for (size_t j = it % step; j < f.vals.size(); j += step) pair(f, f.vals[it], f.vals[j], E[it], E[j], (it + j) % full == 0);
    mc::tick(); mc::state(mc::hashv(1, k, it)); if (it == 100) mc::sample("%s: %s with %zu edge values", NAME[k], str(f.vals[it]).c_str(), f.vals.size()); })
SCENARIO("unary", 4 * 16, [](long it) {
    const Field& f = FLD[it / 16]; long n = 0;
    for (auto& v : f.vals) if (n++ % 16 == it % 16) { mc::at("modulus %ld value %ld", it / 16, n); mc::state(mc::hashv(2, it / 16, h(v))); unary(f, v); inverse(f, v); }
    // 3^8 patterns of 32-bit words, as value and as internal form
    for (auto& v : A32) if (n++ % 16 == it % 16 && v < f.p) { mc::at("modulus %ld pattern %ld", it / 16, n); mc::state(mc::hashv(3, it / 16, h(v))); unary(f, v); unary(f, mulm(v, f.rinv, f.p)); } })
static std::vector<N> exps(const N& p)
{
    std::vector<N> e; for (u64 i = 0; i < 300; i++) e.push_back(small(i));
    for (int i = 0; i < 256; i++) { e.push_back(pow2(i)); e.push_back(sub(pow2(i), 1)); e.push_back(sub(zero(), pow2(i))); e.push_back(add(pow2(i), 1)); }
    neighbours(e, p, 3); neighbours(e, sub(p, 1), 1); for (int i = 0; i < 8; i++) e.push_back(filler(i + 50));
    // one hexadecimal digit d at position i, over zeros and over ones (every window of the exponent)
    for (int i = 0; i < 64; i++) for (u64 d = 1; d < 15; d++) { N x = zero(); x.w[i / 16] = d << (4 * (i % 16)); e.push_back(x); e.push_back(sub(sub(zero(), 1), x)); }
    uniq(e); return e;
}
SCENARIO("pow", 4 * 64, [](long it) {
    const Field& f = FLD[it / 64]; auto E = exps(f.p); N bs[] = {small(2), filler(1000), sub(f.p, 1), small(0), small(1), mulm(sub(f.p, 1), f.rinv, f.p)};
    for (size_t j = it % 64; j < E.size(); j += 64) for (int b = 0; b < (mc::thorough() ? 6 : 2); b++) { mc::at("modulus %ld exponent %ld base %ld", it / 64, j, b); mc::state(mc::hashv(4, it / 64, j, b)); power(f, mod(bs[b], f.p), E[j]); }
    long n = 0; for (auto& v : f.vals) if (n++ % 64 == it % 64) for (u64 e : {0, 1, 2, 3, 16, 17}) { mc::at("modulus %ld value %ld exponent %ld", it / 64, n, e); power(f, v, small(e)); } })
// byte conversion: every 32-byte edge value (also at and above the modulus), set_uint32, long inputs
SCENARIO("bytes", 4 * 161, [](long it) {
    int k = it % 4, len = (int)(it / 4); const Field& f = FLD[k]; mc::Tight T(256); El r; N z = zero();
    auto one = [&](const mc::Bytes& d) {
        T.set(d); r.dirty(); number::mont256_from_bytes_ex(&f.ctx, r.v, T.p, d.size());
        N w = zero(); for (u8 b : d) { u64 w8[5] = {w.w[0] << 8 | b, w.w[1] << 8 | w.w[0] >> 56, w.w[2] << 8 | w.w[1] >> 56, w.w[3] << 8 | w.w[2] >> 56, w.w[3] >> 56}; w = modw(w8, 5, f.p); }
        mc::state(mc::hash(d.data(), d.size(), 50 + k)); chk(f, "from_bytes_ex", z, z, r, w);
        if (!T.ok()) mc::fail("bounds", "from_bytes_ex wrote to its input");
    };
    mc::at("modulus %ld, %ld bytes", k, len);
    one(mc::Bytes(len, 0)); one(mc::Bytes(len, 0xff)); one(mc::filled(len, 3)); one(mc::filled(len, 4));
    for (int i = 0; i < len; i++) { mc::Bytes d(len, 0); d[i] = 1; one(d); d.assign(len, 0xff); d[i] = 0; one(d); }
    if (len >= 32) { std::vector<N> e; neighbours(e, f.p, 2); u64 p2[4]; if (addw(p2, f.p.w, f.p.w, 4) == 0) { N x; memcpy(x.w, p2, 32); neighbours(e, x, 1); } for (auto& x : e) { mc::Bytes d(len, 0); put(d.data() + len - 32, x); one(d); d.assign(len, 0); put(d.data(), x); one(d); } }
    if (len == 0) for (u32 v : {0u, 1u, 2u, 3u, 255u, 65535u, 65536u, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu}) { r.dirty(); number::mont256_set_uint32(&f.ctx, r.v, v); chk(f, "set_uint32", small(v), z, r, small(v)); }
#if defined(CPU_FLAG_MOVBE) && defined(CPU_FLAG_BMI2)
    if (len == 0) for (u64 v : {(u64)0, (u64)1 << 32, ~(u64)0, (u64)1 << 63, ~(u64)1}) { r.dirty(); number::mont256_set_uint64(&f.ctx, r.v, v); chk(f, "set_uint64", small(v), z, r, small(v)); }
#endif
    if (len == 32) { // values at or above the modulus are reduced
        std::vector<N> e; neighbours(e, f.p, 4); neighbours(e, sub(zero(), 1), 0); e.push_back(sub(zero(), 2));
        for (auto& x : e) { u8* p = T.set(bytes(x)); r.dirty(); number::mont256_from_bytes(&f.ctx, r.v, p); chk(f, "from_bytes", x, z, r, mod(x, f.p)); }
    } })
// the word-inverse used by every context: all odd low words of edge shape
SCENARIO("ninv", 1, [](long) {
    for (int i = 0; i < (int)sizeof(limb) * 8; i++) for (int j = 0; j < (int)sizeof(limb) * 8; j++) {
        limb v = ((limb)1 << i) | ((limb)1 << j) | 1, w = (limb)~(v & ~(limb)1);
        mc::at("bits %ld %ld", i, j);
        for (limb x : {v, w}) if ((limb)(x * number::mont_compute_N_(x)) != (limb)~(limb)0) mc::fail("ninv", "N' of %llx is wrong", (unsigned long long)x);
        mc::eval(2); mc::state(mc::hashv(6, i, j));
    } })
MC_MAIN
