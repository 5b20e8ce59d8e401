// C11: 256-bit and multi-limb integers against schoolbook arithmetic.
#include "ref_num.h"
#include <gmlib/number/uint256.h>
#include <gmlib/number/mpz.h>
using namespace rn;
#if defined(CPU_FLAG_MOVBE) && defined(CPU_FLAG_BMI2)
typedef u64 limb;
#define X64 1
#else
typedef u32 limb;
#endif
enum { L = 32 / sizeof(limb), LB = (int)sizeof(limb) };
static_assert(sizeof(number::uint256_t) == 32, "layout");

// operand with canaries on both sides
template <int W> struct Box {
    u64 pre[2]; alignas(16) limb v[W * L]; u64 post[2];
    Box() { memset(this, 0xC3, sizeof *this); }
    void set(const N& a) { memcpy(v, a.w, 32); }
    void dirty() { memset(v, 0x5A, sizeof v); }
    bool ok() const { return pre[0] == 0xC3C3C3C3C3C3C3C3ull && pre[1] == pre[0] && post[0] == pre[0] && post[1] == pre[0]; }
    N get() const { N a; memcpy(a.w, v, 32); return a; }
};
static void bad(const char* op, const N& a, const N& b, const char* what)
{
    mc::fail(op, "%s(%s, %s): %s", op, str(a).c_str(), str(b).c_str(), what);
}
static void chk(const char* op, const N& a, const N& b, const N& got, const N& want, long rc, long wantrc)
{
    mc::eval();
    if (rc != wantrc) { char m[96]; snprintf(m, 96, "returned %ld, expected %ld", rc, wantrc); bad(op, a, b, m); }
    if (got != want) bad(op, a, b, ("got " + str(got) + " want " + str(want)).c_str());
}
// every binary operation on one pair, all aliasings
static void pair_ops(const N& a, const N& b, bool full)
{
    static Box<1> r, x, y; static Box<2> p;
    int c; N s = add(a, b, &c);
    x.set(a); y.set(b); r.dirty(); int rc = number::uint256_add_carry(r.v, x.v, y.v);
    chk("add", a, b, r.get(), s, rc, c);
    int k; N d = sub(a, b, &k);
    r.dirty(); rc = number::uint256_sub_borrow(r.v, x.v, y.v); chk("sub", a, b, r.get(), d, rc, -k);
    int cm = cmp(a, b);
    rc = number::uint256_cmp(x.v, y.v); if ((rc > 0) - (rc < 0) != cm) bad("cmp", a, b, "wrong order");
    if (number::uint256_equal(x.v, y.v) != (cm == 0)) bad("equal", a, b, "wrong");
    u64 w[8]; mulw(w, a.w, 4, b.w, 4);
    p.dirty(); number::uint256_mul(p.v, x.v, y.v);
    mc::eval(3);
    if (memcmp(p.v, w, 64)) bad("mul", a, b, ("got " + mc::hex(p.v, 64) + " want " + mc::hex(w, 64) + " (words low first)").c_str());
    if (x.get() != a || y.get() != b) bad("input", a, b, "an input operand was modified");
    if (full) {
        x.set(a); rc = number::uint256_add_carry(x.v, x.v, y.v); chk("add r=a", a, b, x.get(), s, rc, c);
        x.set(a); rc = number::uint256_add_carry(y.v, x.v, y.v); chk("add r=b", a, b, y.get(), s, rc, c);
        y.set(b); rc = number::uint256_sub_borrow(x.v, x.v, y.v); chk("sub r=a", a, b, x.get(), d, rc, -k);
        x.set(a); rc = number::uint256_sub_borrow(y.v, x.v, y.v); chk("sub r=b", a, b, y.get(), d, rc, -k);
    }
    if (!r.ok() || !x.ok() || !y.ok() || !p.ok()) bad("bounds", a, b, "a write outside the operands");
}
// operations on one value
static void unary_ops(const N& a)
{
    static Box<1> r, x; static Box<2> p; N z = zero();
    int c; N s = add(a, a, &c); int c3; N t = add(s, a, &c3);
    x.set(a); r.dirty(); int rc = number::uint256_dbl_carry(r.v, x.v); chk("dbl", a, z, r.get(), s, rc, c);
    r.dirty(); rc = number::uint256_tpl_carry(r.v, x.v); chk("tpl", a, z, r.get(), t, rc, c + c3);
    rc = number::uint256_dbl_carry(x.v, x.v); chk("dbl r=a", a, z, x.get(), s, rc, c); x.set(a);
    rc = number::uint256_tpl_carry(x.v, x.v); chk("tpl r=a", a, z, x.get(), t, rc, c + c3); x.set(a);
    rc = number::uint256_add_carry(x.v, x.v, x.v); chk("add r=a=b", a, a, x.get(), s, rc, c); x.set(a);
    rc = number::uint256_sub_borrow(x.v, x.v, x.v); chk("sub r=a=b", a, a, x.get(), z, rc, 0); x.set(a);
    u64 w[8]; mulw(w, a.w, 4, a.w, 4);
    p.dirty(); number::uint256_sqr(p.v, x.v); if (memcmp(p.v, w, 64)) bad("sqr", a, a, ("got " + mc::hex(p.v, 64) + " want " + mc::hex(w, 64)).c_str());
    p.dirty(); number::uint256_mul(p.v, x.v, x.v); if (memcmp(p.v, w, 64)) bad("mul a=b", a, a, "wrong");
    if (number::uint256_equal_zero(x.v) != is0(a)) bad("equal_zero", a, z, "wrong");
    if (number::uint256_equal_one(x.v) != (a == small(1))) bad("equal_one", a, z, "wrong");
    for (int i = 0; i < 256; i++) if (number::uint256_bittest(x.v, i) != bit(a, i)) { mc::at("bittest index %ld", i); bad("bittest", a, z, "wrong bit"); }
    r.dirty(); number::uint256_cpy(r.v, x.v); chk("cpy", a, z, r.get(), a, 0, 0);
    u8 b[32], o[34]; put(b, a); r.dirty(); number::uint256_from_bytes(r.v, b); chk("from_bytes", a, z, r.get(), a, 0, 0);
    memset(o, 0x77, 34); number::uint256_to_bytes(o + 1, x.v); if (memcmp(o + 1, b, 32) || o[0] != 0x77 || o[33] != 0x77) bad("to_bytes", a, z, mc::hex(o, 34).c_str());
    r.set(a); number::uint256_set_zero(r.v); chk("set_zero", a, z, r.get(), z, 0, 0);
    r.set(a); number::uint256_set_one(r.v); chk("set_one", a, z, r.get(), small(1), 0, 0);
    mc::eval(262);
    if (!r.ok() || !x.ok() || !p.ok()) bad("bounds", a, z, "a write outside the operands");
}
static const std::vector<u32>& singles()
{
    static std::vector<u32> v = [] { std::vector<u32> r = {0, 1, 2, 3, 5, 7, 10, 0x7fff, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu}; for (int i = 0; i < 6; i++) r.push_back((u32)mc::mix(i)); return r; }();
    return v;
}
template <class W> static void single_ops_w(const N& a, W s, int (*addf)(limb*, const limb*, W), int (*subf)(limb*, const limb*, W), W (*mulf)(limb*, const limb*, W), int (*cmpf)(const limb*, W), void (*setf)(limb*, W))
{
    static Box<1> r, x; N b = small(s); int c; N t = add(a, b, &c); int rc;
    x.set(a); r.dirty(); rc = addf(r.v, x.v, s); chk("add word", a, b, r.get(), t, rc, c);
    rc = addf(x.v, x.v, s); chk("add word r=a", a, b, x.get(), t, rc, c); x.set(a);
    N d = sub(a, b, &c); r.dirty(); rc = subf(r.v, x.v, s); chk("sub word", a, b, r.get(), d, rc, -c);
    rc = subf(x.v, x.v, s); chk("sub word r=a", a, b, x.get(), d, rc, -c); x.set(a);
    u64 w[8]; mulw(w, a.w, 4, b.w, 4); N lo; memcpy(lo.w, w, 32);
    r.dirty(); W hi = mulf(r.v, x.v, s); chk("mul word", a, b, r.get(), lo, (long)hi, (long)w[4]);
    hi = mulf(x.v, x.v, s); chk("mul word r=a", a, b, x.get(), lo, (long)hi, (long)w[4]); x.set(a);
    rc = cmpf(x.v, s); if ((rc > 0) - (rc < 0) != cmp(a, b)) bad("cmp word", a, b, "wrong order");
    r.dirty(); setf(r.v, s); chk("set word", a, b, r.get(), b, 0, 0);
    if (!r.ok() || !x.ok()) bad("bounds", a, b, "a write outside the operands");
}
template <class W> static void div_op(const N& a, W s, W (*f)(limb*, const limb*, W))
{
    if (!s) return;
    static Box<1> r, x; u64 q[4]; N rem = modw(a.w, 4, small(s), q); N Q; memcpy(Q.w, q, 32);
    x.set(a); r.dirty(); W m = f(r.v, x.v, s); chk("div word", a, small(s), r.get(), Q, (long)m, (long)rem.w[0]);
    m = f(x.v, x.v, s); chk("div word r=a", a, small(s), x.get(), Q, (long)m, (long)rem.w[0]);
    if (!r.ok() || !x.ok()) bad("bounds", a, small(s), "a write outside the operands");
}
static void single_ops(const N& a)
{
    for (u32 s : singles()) {
        single_ops_w<u32>(a, s, number::uint256_add_carry_uint32, number::uint256_sub_borrow_uint32, number::uint256_mul_carry_uint32, number::uint256_cmp_uint32, number::uint256_set_uint32);
#ifdef X64
        for (u64 w : {(u64)s, (u64)s << 32, (u64)s << 32 | 0xffffffff, (u64)s << 32 | s}) {
            single_ops_w<u64>(a, w, number::uint256_add_carry_uint64, number::uint256_sub_borrow_uint64, number::uint256_mul_carry_uint64, number::uint256_cmp_uint64, number::uint256_set_uint64);
            div_op<u64>(a, w, number::uint256_div_uint64);
        }
#else
        div_op<u32>(a, s, number::uint256_div_uint32);
#endif
    }
}
static std::vector<N> A64, A32, EDGE;
SETUP([] {
    A64 = words64({0, 1, 0x8000000000000000ull, 0xfffffffffffffffeull, ~0ull, 0x00000000ffffffffull, 0xffffffff00000000ull});
    A32 = words32({0, 1, 0xffffffffu});
    for (int i = 0; i < 256; i++) { EDGE.push_back(pow2(i)); EDGE.push_back(sub(pow2(i), 1)); EDGE.push_back(add(pow2(i), 1)); EDGE.push_back(sub(zero(), pow2(i))); EDGE.push_back(sub(sub(zero(), pow2(i)), 1)); }
    for (const N& m : {SM2P(), SM2N(), SM9P(), SM9N()}) neighbours(EDGE, m, 3);
    for (int i = 0; i < (mc::thorough() ? 200 : 60); i++) EDGE.push_back(filler(i));
    uniq(EDGE);
})
SCENARIO("pairs64", [] { return (long)A64.size(); }, [](long i) { for (auto& b : A64) { pair_ops(A64[i], b, true); } mc::state(mc::hashv(1, i)); mc::at("row %ld of 64-bit word patterns", i); if (i == 13) mc::sample("%s with each of %zu word patterns", str(A64[i]).c_str(), A64.size()); })
SCENARIO("pairs32", [] { return (long)A32.size(); }, [](long i) {
    mc::at("row %ld of 32-bit word patterns", i);
    for (auto& b : A32) pair_ops(A32[i], b, mc::thorough());
    mc::state(mc::hashv(2, i)); })
SCENARIO("pairsedge", [] { return (long)EDGE.size(); }, [](long i) { mc::at("edge row %ld", i); for (auto& b : EDGE) pair_ops(EDGE[i], b, true); mc::state(mc::hashv(3, i)); if (i == 700) mc::sample("%s with each of %zu edge values", str(EDGE[i]).c_str(), EDGE.size()); })
SCENARIO("unary", 64, [](long it) {
    long n = 0;
    for (auto* v : {&A64, &A32, &EDGE}) for (auto& a : *v) if (n++ % 64 == it) { mc::state(mc::hashv(4, h(a))); mc::at("value %ld", n); unary_ops(a); single_ops(a); } })

// --- modular operations on uint256 ---
static std::vector<N> divisors() { return {SM2P(), SM2N(), SM9P(), SM9N(), sub(SM9N(), 1), sub(SM2N(), 1), sub(zero(), 1), sub(zero(), 189), pow2(255), add(pow2(255), 95), add(pow2(254), 1), pow2(252), add(pow2(251), 9)}; }
static std::vector<N> residues(const N& m)
{
    std::vector<N> r; for (auto& e : EDGE) if (e < m) r.push_back(e);
    for (u64 d = 0; d < 4; d++) { r.push_back(small(d)); r.push_back(sub(m, d + 1)); }
    u64 q[4]; modw(m.w, 4, small(2), q); N hm; memcpy(hm.w, q, 32); neighbours(r, hm, 3); modw(m.w, 4, small(3), q); memcpy(hm.w, q, 32); neighbours(r, hm, 2);
    uniq(r); return r;
}
SCENARIO("modaddsub", 13 * 32, [](long it) {
    N m = divisors()[it / 32]; auto R = residues(m); Box<1> r, x, y, mm; mm.set(m);
    for (size_t i = it % 32; i < R.size(); i += 32) for (auto& b : R) {
        const N& a = R[i]; N s = addm(a, b, m), d = subm(a, b, m);
        mc::at("divisor %ld operand %ld", it / 32, i);
        x.set(a); y.set(b); r.dirty(); number::uint256_mod_add(r.v, x.v, y.v, mm.v); chk("mod_add", a, b, r.get(), s, 0, 0);
        r.dirty(); number::uint256_mod_sub(r.v, x.v, y.v, mm.v); chk("mod_sub", a, b, r.get(), d, 0, 0);
        number::uint256_mod_add(x.v, x.v, y.v, mm.v); chk("mod_add r=a", a, b, x.get(), s, 0, 0); x.set(a);
        number::uint256_mod_add(y.v, x.v, y.v, mm.v); chk("mod_add r=b", a, b, y.get(), s, 0, 0); y.set(b);
        number::uint256_mod_sub(x.v, x.v, y.v, mm.v); chk("mod_sub r=a", a, b, x.get(), d, 0, 0); x.set(a);
        number::uint256_mod_sub(y.v, x.v, y.v, mm.v); chk("mod_sub r=b", a, b, y.get(), d, 0, 0);
        if (a == b) { x.set(a); number::uint256_mod_add(x.v, x.v, x.v, mm.v); chk("mod_add r=a=b", a, b, x.get(), s, 0, 0); x.set(a); number::uint256_mod_sub(x.v, x.v, x.v, mm.v); chk("mod_sub r=a=b", a, b, x.get(), zero(), 0, 0); }
        if (!r.ok() || !x.ok() || !y.ok() || mm.get() != m) bad("bounds", a, b, "a write outside the operands");
    }
    mc::state(mc::hashv(5, it)); })
// long reduction: every length, several contents, in a buffer that ends at a fault
static N refmod(const mc::Bytes& d, const N& m)
{
    N r = zero(); for (u8 b : d) { u64 t[5]; u64 w8[5] = {r.w[0] << 8 | b, r.w[1] << 8 | r.w[0] >> 56, r.w[2] << 8 | r.w[1] >> 56, r.w[3] << 8 | r.w[2] >> 56, r.w[3] >> 56}; memcpy(t, w8, 40); r = modw(t, 5, m); }
    return r;
}
static void mod_case(mc::Tight& T, const mc::Bytes& d, const N& m)
{
    Box<1> r, mm; mm.set(m); r.dirty(); T.set(d);
    number::uint256_mod(r.v, T.p, d.size(), mm.v); N want = refmod(d, m);
    mc::eval(); mc::state(mc::hash(d.data(), d.size(), h(m)));
    if (r.get() != want) mc::fail("mod", "uint256_mod of %zu bytes %s by %s: got %s want %s", d.size(), mc::hex(d).c_str(), str(m).c_str(), str(r.get()).c_str(), str(want).c_str());
    if (!r.ok() || mm.get() != m || !T.ok() || memcmp(T.p, d.data(), d.size())) mc::fail("bounds", "uint256_mod of %zu bytes wrote outside its result", d.size());
}
SCENARIO("modlen", 13 * 161, [](long it) {
    N m = divisors()[it % 13]; int len = (int)(it / 13); mc::Tight T(256); mc::at("divisor %ld, %ld bytes", it % 13, len);
    for (int pat = 0; pat < 6; pat++) {
        mc::Bytes d(len, pat == 0 ? 0 : 0xff);
        if (pat == 2) for (int i = 0; i < len; i++) d[i] = (u8)(i == 0); // leading one
        if (pat >= 3) d = mc::filled(len, pat);
        mod_case(T, d, m);
    }
    if (len % 8 == 0 || mc::thorough()) for (int i = 0; i < len; i++) { mc::Bytes d(len, 0); d[i] = 0x80; mod_case(T, d, m); d.assign(len, 0xff); d[i] = 0x7f; mod_case(T, d, m); }
    if (len == 40) mc::sample("%d-byte values modulo %s", len, str(m).c_str()); })
// multiples of the divisor and their neighbours
SCENARIO("modmultiples", 13 * 8, [](long it) {
    N m = divisors()[it / 8]; mc::Tight T(256); long n = 0;
    for (auto& k : EDGE) {
        if (n++ % 8 != it % 8) continue;
        mc::at("divisor %ld multiplier %ld", it / 8, n);
        u64 w[8]; mulw(w, m.w, 4, k.w, 4); u64 one[8] = {1}, t[8];
        for (int d = -1; d <= 1; d++) {
            if (d < 0) { if (is0(k)) continue; subw(t, w, one, 8); } else if (d > 0) addw(t, w, one, 8); else memcpy(t, w, 64);
            mc::Bytes b(64); for (int i = 0; i < 64; i++) b[63 - i] = (u8)(t[i / 8] >> (8 * (i % 8)));
            mod_case(T, b, m);
            b.insert(b.begin(), 3, 0); mod_case(T, b, m);
        }
    } })
// unaligned byte buffers
SCENARIO("bytesalign", 16, [](long off) {
    mc::Guard g(64); Box<1> r; N a = filler(99);
    for (int e = 0; e < 2; e++) {
        u8* p = e ? g.tail(32 + off) : g.head() + off; if (e && off > 0) p = g.tail(32) - off; // both ends
        mc::at("offset %ld end %ld", off, e);
        put(p, a); r.dirty(); number::uint256_from_bytes(r.v, p); chk("from_bytes", a, zero(), r.get(), a, 0, 0);
        memset(p, 0, 32); number::uint256_to_bytes(p, r.v); u8 o[32]; put(o, a); if (memcmp(p, o, 32)) bad("to_bytes", a, zero(), "unaligned");
        mc::state(mc::hashv(7, off, e));
    } })

// --- multi-limb ---
enum { MAXL = 48 };
struct MBox { limb pre[2], v[2 * MAXL + 4]; };
typedef std::vector<limb> V;
static void mfail(const char* op, const V& a, const V& b, size_t n, const char* what) { mc::fail(op, "%s, %zu limbs: %s; a=%s b=%s (bytes low first)", op, n, what, mc::hex(a.data(), n * LB).c_str(), mc::hex(b.data(), n * LB).c_str()); }
static void mpz_pair(const V& a, const V& b, bool mul)
{
    size_t n = a.size(); static limb r[2 * MAXL + 4], x[MAXL + 4], y[MAXL + 4];
    const limb C = (limb)0xC5C5C5C5C5C5C5C5ull;
    limb want[2 * MAXL + 4];
    auto load = [&] { for (size_t i = 0; i < n; i++) { x[i + 1] = a[i]; y[i + 1] = b[i]; } x[0] = x[n + 1] = y[0] = y[n + 1] = C; };
    for (int ci = 0; ci <= 1; ci++) for (int op = 0; op < 2; op++) for (int al = 0; al < 4; al++) { // r apart, r=a, r=b, a=b=r
        load(); limb* X = x + 1; limb* Y = y + 1; limb* R = al == 1 ? X : al == 2 ? Y : r + 1; if (al == 3) { Y = X; R = X; }
        const limb* bb = al == 3 ? a.data() : b.data();
        if (al == 0) { for (auto& w : r) w = C; }
        // reference
        unsigned c = ci;
        for (size_t i = 0; i < n; i++) {
            u128 t;
            if (op == 0) { t = (u128)a[i] + bb[i] + c; want[i] = (limb)t; c = (unsigned)(t >> (8 * LB)); }
            else { t = (u128)a[i] - bb[i] - c; want[i] = (limb)t; c = (t >> 127) & 1; }
        }
        long rc = op == 0 ? number::mpz_add_carry(R, X, Y, ci, n) : number::mpz_sub_borrow(R, X, Y, -ci, n), wrc = op == 0 ? (long)c : -(long)c;
        if (n == 0) continue; // nothing to judge except memory
        mc::eval();
        if (memcmp(R, want, n * LB) || rc != wrc) { char m[100]; snprintf(m, 100, "wrong result or carry (in %d, returned %ld, expected %ld, aliasing %d)", ci, rc, wrc, al); mfail(op ? "mpz_sub_borrow" : "mpz_add_carry", a, b, n, m); }
        if (R[-1] != C || R[n] != C) mfail("bounds", a, b, n, "a write outside the result");
    }
    load();
    int cm = 0; for (size_t i = n; i-- > 0 && !cm;) cm = a[i] < b[i] ? -1 : a[i] > b[i];
    int g = number::mpz_cmp(x + 1, y + 1, n); if ((g > 0) - (g < 0) != cm) mfail("mpz_cmp", a, b, n, "wrong order");
    if (mul && n) {
        for (size_t i = 0; i < 2 * n; i++) want[i] = 0;
        for (size_t i = 0; i < n; i++) { limb c = 0; for (size_t j = 0; j < n; j++) { u128 t = (u128)a[i] * b[j] + want[i + j] + c; want[i + j] = (limb)t; c = (limb)(t >> (8 * LB)); } want[i + n] = c; }
        for (auto& w : r) w = C;
        number::mpz_mul(r + 1, x + 1, y + 1, n); mc::eval();
        if (memcmp(r + 1, want, 2 * n * LB)) mfail("mpz_mul", a, b, n, ("got " + mc::hex(r + 1, 2 * n * LB) + " want " + mc::hex(want, 2 * n * LB)).c_str());
        if (r[0] != C || r[2 * n + 1] != C) mfail("bounds", a, b, n, "mpz_mul wrote outside the product");
    }
    for (auto& w : r) w = C;
    number::mpz_cpy(r + 1, x + 1, n); if (memcmp(r + 1, x + 1, n * LB) || r[0] != C || r[n + 1] != C) mfail("mpz_cpy", a, b, n, "wrong copy");
}
static V pattern(long i, int n, int k) { static const limb al[5] = {0, 1, (limb)~(limb)0, (limb)((limb)1 << (8 * LB - 1)), (limb)(~(limb)0 - 1)}; V v(n); for (auto& x : v) { x = al[i % k]; i /= k; } return v; }
static long ipow(long b, int e) { long r = 1; while (e--) r *= b; return r; }
// all limb patterns squared for up to 6 limbs (7 in thorough)
SCENARIO("mpzpairs", [] { return mc::thorough() ? 3280L : 1093L; }, [](long it) { // 1+3+9+...+3^6 (3^7)
    int n = 0; long i = it; while (i >= ipow(3, n)) { i -= ipow(3, n); n++; }
    mc::at("%ld limbs, row %ld", n, i);
    V a = pattern(i, n, 3); for (long j = 0; j < ipow(3, n); j++) mpz_pair(a, pattern(j, n, 3), true);
    mc::state(mc::hashv(8, n, i)); if (it == 300) mc::sample("%d limbs, all patterns of {0,1,max}", n); })
SCENARIO("mpzpairs5", 625 + 125 + 25, [](long it) {
    int n = it < 625 ? 4 : it < 750 ? 3 : 2; long i = it < 625 ? it : it < 750 ? it - 625 : it - 750;
    V a = pattern(i, n, 5); for (long j = 0; j < ipow(5, n); j++) mpz_pair(a, pattern(j, n, 5), true); mc::state(mc::hashv(9, n, i)); })
// long operands: every length, carry chains that start and stop at every limb
SCENARIO("mpzlong", MAXL + 1, [](long n) {
    std::vector<V> vs; limb M = ~(limb)0;
    vs.push_back(V(n, 0)); vs.push_back(V(n, M)); for (int s = 0; s < 3; s++) { V v(n); mc::fill(v.data(), n * LB, s + 10 * n); vs.push_back(v); }
    for (long i = 0; i < n; i++) { V v(n, 0); v[i] = 1; vs.push_back(v); V w(n, M); w[i] = M - 1; vs.push_back(w); V u(n, 0); for (long j = i; j < n; j++) u[j] = M; vs.push_back(u); }
    mc::at("%ld limbs", n); for (auto& a : vs) for (auto& b : vs) mpz_pair(a, b, true); mc::state(mc::hashv(10, n)); })
// operands whose length does not fit 8 or 16 bits: carries over the whole length, differences at either end, products with a closed form
static const long HUGE_L[] = {255, 256, 257, 511, 1025, 4097, 32769, 65535, 65536, 65537, 70001, 131074};
SCENARIO("mpzhuge", 12, [](long it) {
    size_t n = HUGE_L[it]; const limb M = ~(limb)0, C = (limb)0xC5C5C5C5C5C5C5C5ull; mc::at("%ld limbs", n); mc::state(mc::hashv(12, n)); auto bad = [&](const char* op, const char* w, size_t at) { mc::fail(op, "%zu limbs: %s (limb %zu)", n, w, at); };
    for (size_t s : {(size_t)0, n / 2, n - 2, n - 1, (size_t)254, (size_t)255, (size_t)256, (size_t)65535, (size_t)65536}) if (s < n) { // 1 at limb s rippling to the top, and back
        V a(n + 2, C), b(n + 2, C), r(n + 2, C); for (size_t i = 0; i < n; i++) { a[i + 1] = M - (i < s ? 3 : 0); b[i + 1] = i == s; } mc::eval(); int c = number::mpz_add_carry(r.data() + 1, a.data() + 1, b.data() + 1, 0, n); if (c != 1) bad("mpz_add_carry", "carry lost", s); for (size_t i = 0; i < n; i++) if (r[i + 1] != (i < s ? (limb)(M - 3) : 0)) bad("mpz_add_carry", "wrong limb", i); if (r[0] != C || r[n + 1] != C) bad("bounds", "mpz_add_carry wrote outside", s);
        V d(n + 2, C); int w = number::mpz_sub_borrow(d.data() + 1, r.data() + 1, b.data() + 1, 0, n); if (w != -1) bad("mpz_sub_borrow", "borrow lost", s); for (size_t i = 0; i < n; i++) if (d[i + 1] != a[i + 1]) bad("mpz_sub_borrow", "wrong limb", i); if (d[0] != C || d[n + 1] != C) bad("bounds", "mpz_sub_borrow wrote outside", s);
        V e = a; e[s + 1] -= 1; if (number::mpz_cmp(a.data() + 1, e.data() + 1, n) <= 0 || number::mpz_cmp(e.data() + 1, a.data() + 1, n) >= 0 || number::mpz_cmp(a.data() + 1, d.data() + 1, n)) bad("mpz_cmp", "wrong order for a difference", s);
        V g(n + 2, C), h(n + 2, C); for (size_t i = 0; i < n; i++) a[i + 1] = (limb)mc::mix(i + s); number::mpz_cpy(g.data() + 1, a.data() + 1, n); if (g != a) bad("mpz_cpy", "wrong copy", s);
        mc::Bytes z(n * LB + 2, 0xEE); number::mpz_to_bytes(z.data() + 1, a.data() + 1, n); for (size_t i = 0; i < n * LB; i++) if (z[n * LB - i] != (u8)(a[i / LB + 1] >> 8 * (i % LB))) bad("mpz_to_bytes", "wrong byte", i / LB); if (z[0] != 0xEE || z.back() != 0xEE) bad("bounds", "mpz_to_bytes wrote outside", s); number::mpz_from_bytes(h.data() + 1, z.data() + 1, n); if (h != a) bad("mpz_from_bytes", "wrong limbs", s);
    }
    if (n < 30000 || n == 65537) for (int k = 0; k < 2; k++) { // (B^n-1)^2, and (B^n-1) * 3 B^(n-1)
        if (k && n > 30000 && !mc::thorough()) break;
        V a(n, M), b(n, k ? 0 : M), r(2 * n + 2, C); if (k) b[n - 1] = 3; mc::tick(); mc::eval(); number::mpz_mul(r.data() + 1, a.data(), b.data(), n); mc::tick();
        for (size_t i = 0; i < 2 * n; i++) { limb w = k ? (i < n - 1 ? 0 : i == n - 1 ? (limb)(M - 2) : i < 2 * n - 1 ? M : 2) : (i == 0 ? 1 : i < n ? 0 : i == n ? (limb)(M - 1) : M); if (r[i + 1] != w) bad("mpz_mul", "wrong limb", i); } if (r[0] != C || r[2 * n + 1] != C) bad("bounds", "mpz_mul wrote outside", 0); } })
// overlapping copies and byte conversion at page ends
SCENARIO("mpzbytes", 21, [](long n) {
    mc::Tight T(512), S(512); V v(n); mc::fill(v.data(), n * LB, n + 5); mc::at("%ld limbs", n);
    for (int off = 0; off < 8; off++) {
        mc::Bytes be(n * LB); for (long i = 0; i < n * LB; i++) be[n * LB - 1 - i] = (u8)(v[i / LB] >> (8 * (i % LB)));
        T.set(n * LB + off); if (n) memcpy(T.p, be.data(), n * LB); // off bytes before the end: exercises alignment
        if (off == 0) T.set(be);
        std::vector<limb> r(n + 2, (limb)0x1111); number::mpz_from_bytes(r.data() + 1, T.p, n);
        if (n && memcmp(r.data() + 1, v.data(), n * LB)) mfail("mpz_from_bytes", v, v, n, mc::hex(r.data(), (n + 2) * LB).c_str());
        if (r[0] != 0x1111 || r[n + 1] != 0x1111) mfail("bounds", v, v, n, "mpz_from_bytes wrote outside");
        S.set(n * LB + off, 0xEE); number::mpz_to_bytes(S.p, v.data(), n);
        if (n && memcmp(S.p, be.data(), n * LB)) mfail("mpz_to_bytes", v, v, n, mc::hex(S.p, n * LB).c_str());
        for (int i = 0; i < off; i++) if (S.p[n * LB + i] != 0xEE) mfail("bounds", v, v, n, "mpz_to_bytes wrote outside");
        if (!S.ok()) mfail("bounds", v, v, n, "mpz_to_bytes wrote before");
        mc::eval(2); mc::state(mc::hashv(11, n, off));
    }
    for (long d = -n; d <= n; d++) { std::vector<limb> b(3 * n + 1), e; for (long i = 0; i < 3 * n; i++) b[i] = (limb)mc::mix(i); e = b; for (long i = 0; i < n; i++) e[n + d + i] = b[n + i]; number::mpz_cpy(b.data() + n + d, b.data() + n, n); if (b != e) mc::fail("mpz_cpy", "overlapping copy by %ld of %ld limbs", d, n); mc::eval(); } })
SCENARIO("epi8", 1, [](long) {
    auto a = number::mpz_set_epi8(1, 2, 3, 4, 5, 6, 7, 8); auto b = number::mpz_set_epi8(0xff, 0xfe, 0x80, 0x7f, 0, 1, 2, 3, 0x10, 0x20, 0x30, 0x40, 0x50, 0x60, 0x70, 0x80, 9, 8, 7, 6, 5, 4, 3, 2, 0xab, 0xcd, 0xef, 0x01, 0x23, 0x45, 0x67, 0x89);
    u8 la[8] = {8, 7, 6, 5, 4, 3, 2, 1}; if (memcmp(a.v, la, 8)) mc::fail("set_epi8", "8-byte constant");
    u8 lb[32] = {0x89, 0x67, 0x45, 0x23, 0x01, 0xef, 0xcd, 0xab, 2, 3, 4, 5, 6, 7, 8, 9, 0x80, 0x70, 0x60, 0x50, 0x40, 0x30, 0x20, 0x10, 3, 2, 1, 0, 0x7f, 0x80, 0xfe, 0xff}; if (memcmp(b.v, lb, 32)) mc::fail("set_epi8", "32-byte constant");
    mc::eval(2); mc::state(12); })
MC_MAIN
