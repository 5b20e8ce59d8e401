// C22: SM9 fields, extensions, curve groups and their encodings.
#include "sm9if.h"
using namespace s9;
static std::vector<N> V; static std::vector<F2> E2; static std::vector<F12> E4, E12; static std::vector<N> SC;
#define OK(cond, key, ...) do { if (!(cond)) mc::fail(key, __VA_ARGS__); } while (0)
SETUP([] {
    const N p = P9(), z = zero();
    neighbours(V, small(12), 12); neighbours(V, p, 20); neighbours(V, N9(), 4); for (int i = 0; i < 256; i++) { neighbours(V, pow2(i), 1); V.push_back(rn::sub(p, pow2(i))); } { u64 q[4]; N h; for (u64 d : {2, 3, 4, 5, 8}) { modw(p.w, 4, small(d), q); memcpy(h.w, q, 32); neighbours(V, h, 2); } } for (int i = 0; i < 40; i++) V.push_back(filler(i + 1));
    for (auto& x : V) x = mod(x, p); uniq(V);
    std::vector<N> a = {z, small(1), small(2), rn::sub(p, 1), rn::sub(p, 2), filler(5), filler(6), mod(pow2(255), p), rn::sub(p, pow2(254)), small(5), filler(9), fi(small(2))}; for (auto& x : a) x = mod(x, p);
    for (auto& x : a) for (auto& y : a) E2.push_back(f2(x, y));
    std::vector<N> b = {z, small(1), rn::sub(p, 1), mod(filler(8), p)}; for (int i = 0; i < 256; i++) { F12 e = f12(); e.c[0] = b[i & 3]; e.c[6] = b[i >> 2 & 3]; e.c[3] = b[i >> 4 & 3]; e.c[9] = b[i >> 6 & 3]; E4.push_back(e); }
    for (int i = 0; i < 12; i++) { F12 e = f12(); e.c[0] = mod(filler(100 + i), p); e.c[3] = mod(filler(200 + i), p); e.c[6] = mod(filler(300 + i), p); e.c[9] = mod(filler(400 + i), p); E4.push_back(e); }
    E12.push_back(f12()); E12.push_back(f12one()); for (int i = 0; i < 12; i++) for (auto& x : {small(1), rn::sub(p, 1), mod(filler(8), p)}) E12.push_back(mono(x, i));
    for (int i = 0; i < 12; i++) for (int j = i + 1; j < 12; j++) E12.push_back(mono(small(1), i) + mono(mod(filler(i * 12 + j), p), j));
    for (int m = 0; m < 12; m++) { F12 e = f12(); for (int i = 0; i < 12; i++) if (i != m) e.c[i] = mod(filler(500 + m * 12 + i), p); E12.push_back(e); }
    for (int m = 0; m < 8; m++) { F12 e; for (int i = 0; i < 12; i++) e.c[i] = m == 0 ? rn::sub(p, 1) : m == 1 ? small(1) : mod(filler(900 + m * 12 + i), p); E12.push_back(e); }
    for (int c = 0; c < 3; c++) { F12 e = f12(); for (int k : {0, 3, 6, 9}) e.c[k + c] = mod(filler(40 + k + c), p); E12.push_back(e); e = f12(); e.c[c] = mod(filler(3 + c), p); e.c[6 + c] = mod(filler(13 + c), p); E12.push_back(e); }
    // scalars
    std::vector<N>& v = SC; const N n = N9(); N t; u64 q[5]; int w = mc::thorough() ? 200 : 40;
    neighbours(v, small(w), w); neighbours(v, n, w); neighbours(v, rn::sub(z, 1 + w), w);
    for (u64 d : {2, 3, 4, 5, 6, 7}) { modw(n.w, 4, small(d), q); memcpy(t.w, q, 32); for (u64 m = 1; m < d; m++) { N s = z; for (u64 i = 0; i < m; i++) s = rn::add(s, t); neighbours(v, s, 3); } }
    { u64 x[5] = {0, 0, 0, 0, 1}; modw(x, 5, small(3), q); memcpy(t.w, q, 32); neighbours(v, t, 6); x[4] = 2; modw(x, 5, small(3), q); memcpy(t.w, q, 32); neighbours(v, t, 6); }
    for (int i = 0; i < 256; i++) { neighbours(v, pow2(i), 1); v.push_back(rn::sub(n, pow2(i))); v.push_back(rn::sub(z, pow2(i))); }
    for (int i = 0; i < 64; i++) for (u64 d = 1; d < 16; d += mc::thorough() ? 1 : 4) { N x = z; x.w[i / 16] = d << (4 * (i % 16)); v.push_back(x); }
    for (u64 pt : {0x5555555555555555ull, 0x3333333333333333ull, 0x0f0f0f0f0f0f0f0full, 0x9249249249249249ull, 0x00ff00ff00ff00ffull, 0x0000ffff0000ffffull, 0xaaaaaaaaaaaaaaaaull, 0xfffffffffffffffeull}) v.push_back(N{{pt, pt, pt, pt}});
    for (int i = 0; i < (mc::thorough() ? 600 : 100); i++) v.push_back(filler(i + 7)); uniq(v);
})
// --- prime field ----------------------------------------------------------
SCENARIO("fp unary", [] { return (long)V.size(); }, [](long it) {
    const N& a = V[it]; const N p = P9(), n = N9(); I::sm9_fp_t x, r; set(x, a); mc::at("value %ld", it); mc::state(mc::hashv(1, rn::h(a))); OK(get(x) == a, "bytes", "%s", rn::str(a).c_str());
    auto un = [&](const char* nm, void (*f)(I::sm9_fp_t, const I::sm9_fp_t) noexcept, const N& want) { memset(r, 0x5a, sizeof r); f(r, x); OK(get(r) == want, nm, "%s of %s", nm, rn::str(a).c_str()); set(r, a); f(r, r); OK(get(r) == want, nm, "%s in place", nm); mc::eval(2); };
    un("dbl", I::sm9_fp_dbl, fa(a, a)); un("tpl", I::sm9_fp_tpl, fa(fa(a, a), a)); un("neg", I::sm9_fp_neg, fn(a)); un("sqr", I::sm9_fp_sqr, fm(a, a)); un("cpy", I::sm9_fp_cpy, a); if (!rn::is0(a)) un("inv", I::sm9_fp_inv, fi(a));
    OK(I::sm9_fp_equal_zero(x) == rn::is0(a), "equal_zero", "%s", rn::str(a).c_str()); OK(I::sm9_fp_equal_one(x) == (a == small(1)), "equal_one", "%s", rn::str(a).c_str());
    I::sm9_fp_set_zero(r); OK(rn::is0(get(r)), "set_zero", "fp"); I::sm9_fp_set_one(r); OK(get(r) == small(1), "set_one", "fp");
    u64 q[4]; N e = rn::sub(p, 1); modw(e.w, 4, small(2), q); N h; memcpy(h.w, q, 32); bool qr = rn::is0(a) || powm(a, h, p) == small(1); for (int in = 0; in < 2; in++) { if (in) I::sm9_fp_cpy(r, x); bool ok = I::sm9_fp_sqrt(r, in ? r : x) == 0; OK(ok == qr, "sqrt", "square root of %s: %d", rn::str(a).c_str(), ok); if (ok) OK(fm(get(r), get(r)) == a, "sqrt", "wrong root of %s", rn::str(a).c_str()); }
    u8 ab[32]; rn::put(ab, a); I::sm9_bn_t bn; u8 o[32]; I::sm9_fp_to_bn(bn, x); I::sm9_bn_to_bytes(o, bn); OK(rn::get(o) == a, "fp_to_bn", "%s", rn::str(a).c_str()); I::sm9_fp_from_bn(r, bn); OK(get(r) == a, "fp_from_bn", "%s", rn::str(a).c_str());
    I::sm9_fn_t f; I::sm9_fn_from_fp(f, x); I::sm9_fn_to_bytes(o, f); OK(rn::get(o) == mod(a, n), "fn_from_fp", "%s", rn::str(a).c_str()); I::sm9_fn_to_fp(r, f); OK(get(r) == mod(a, n), "fn_to_fp", "%s", rn::str(a).c_str()); I::sm9_fn_to_bn(bn, f); I::sm9_bn_to_bytes(o, bn); OK(rn::get(o) == mod(a, n), "fn_to_bn", "%s", rn::str(a).c_str()); I::sm9_fn_from_bn(f, bn); I::sm9_fn_to_bytes(o, f); OK(rn::get(o) == mod(a, n), "fn_from_bn", "%s", rn::str(a).c_str());
    N m = mod(a, n); if (!rn::is0(m)) { I::sm9_fn_inv(f, f); I::sm9_fn_to_bytes(o, f); OK(rn::get(o) == invm(m, n), "fn_inv", "%s", rn::str(a).c_str()); }
    mc::eval(10); })
SCENARIO("fp pairs", 128, [](long it) {
    size_t st = mc::thorough() ? 1 : 6; const N n = N9(); for (size_t i = it; i < V.size(); i += 128) for (size_t j = (i * 7) % st; j < V.size(); j += st) {
        const N &a = V[i], &b = V[j]; I::sm9_fp_t x, y, r; set(x, a); set(y, b); mc::at("values %ld %ld", i, j); mc::state(mc::hashv(2, i, j)); mc::eval(9);
        I::sm9_fp_add(r, x, y); OK(get(r) == fa(a, b), "fp add", "%s + %s", rn::str(a).c_str(), rn::str(b).c_str()); I::sm9_fp_sub(r, x, y); OK(get(r) == fs(a, b), "fp sub", "%s - %s", rn::str(a).c_str(), rn::str(b).c_str()); I::sm9_fp_mul(r, x, y); OK(get(r) == fm(a, b), "fp mul", "%s * %s", rn::str(a).c_str(), rn::str(b).c_str()); OK(I::sm9_fp_equal(x, y) == (a == b), "fp equal", "%s, %s", rn::str(a).c_str(), rn::str(b).c_str());
        N c = mod(a, n), d = mod(b, n); u8 cb[32], db[32], o[32]; rn::put(cb, a); rn::put(db, b); I::sm9_fn_t f, g, h; I::sm9_fn_from_bytes(f, cb); I::sm9_fn_from_bytes(g, db);
        I::sm9_fn_add(h, f, g); I::sm9_fn_to_bytes(o, h); OK(rn::get(o) == addm(c, d, n), "fn add", "%s + %s", rn::str(c).c_str(), rn::str(d).c_str()); I::sm9_fn_sub(h, f, g); I::sm9_fn_to_bytes(o, h); OK(rn::get(o) == subm(c, d, n), "fn sub", "%s - %s", rn::str(c).c_str(), rn::str(d).c_str()); I::sm9_fn_mul(h, f, g); I::sm9_fn_to_bytes(o, h); OK(rn::get(o) == mulm(c, d, n), "fn mul", "%s * %s", rn::str(c).c_str(), rn::str(d).c_str()); OK(I::sm9_fn_equal(f, g) == (c == d), "fn equal", "%s, %s", rn::str(c).c_str(), rn::str(d).c_str());
    } })
// reductions of hash values
SCENARIO("reduce", 96, [](long len) {
    const N n = N9(); for (int pat = 0; pat < 40; pat++) for (int lead = 0; lead < 256; lead += pat < 3 ? 1 : 51) {
        Bytes b = pat == 0 ? Bytes(len, 0) : pat == 1 ? Bytes(len, 0xff) : mc::filled(len, pat); if (len) b[0] = (u8)lead; if (pat >= 20 && len >= 32) { N x = rn::sub(n, 1); std::vector<N> w; neighbours(w, x, 10); u8 t[32]; rn::put(t, w[pat - 20]); memcpy(&b[len - 32], t, 32); if (len > 32) for (long i = 0; i < len - 32; i++) b[i] = 0; if (len > 32) b[0] = (u8)lead; }
        u64 w[16] = {0}; for (long i = 0; i < len; i++) w[(len - 1 - i) / 8] |= (u64)b[i] << (8 * ((len - 1 - i) % 8)); mc::at("length %ld pattern %ld lead %ld", len, pat, lead); mc::eval(3); mc::state(mc::hash(b.data(), b.size(), 3)); u8 o[32]; mc::Tight T(128); T.set(b); I::sm9_bn_t x; I::sm9_bn_mod_n_sub1_ex(x, T.p, len); I::sm9_bn_to_bytes(o, x); OK(rn::get(o) == modw(w, 12, rn::sub(n, 1)), "mod_n_sub1_ex", "%s", mc::hex(b).c_str());
        I::sm9_fn_t f; I::sm9_fn_from_bytes_ex(f, T.p, len); I::sm9_fn_to_bytes(o, f); OK(rn::get(o) == modw(w, 12, n), "fn_from_bytes_ex", "%s", mc::hex(b).c_str());
        if (len == 32) { void (*F[])(I::sm9_bn_t) noexcept = {I::sm9_bn_mod_n_sub1, I::sm9_bn_mod_n_sub2, I::sm9_bn_mod_n_sub3}; for (int k = 0; k < 3; k++) { I::sm9_bn_from_bytes(x, T.p); F[k](x); I::sm9_bn_to_bytes(o, x); OK(rn::get(o) == mod(rn::get(T.p), rn::sub(n, k + 1)), "mod_n_sub", "%d: %s", k + 1, mc::hex(b).c_str()); } }
    } })
// --- extensions -----------------------------------------------------------
template <class T> struct Boxed { u64 pre = 0x5a5a5a5a5a5a5a5aull; T v; u64 post = 0x5a5a5a5a5a5a5a5aull; ~Boxed() {} void ok(const char* w) { if (pre != 0x5a5a5a5a5a5a5a5aull || post != pre) mc::fail("bounds", "%s writes outside the result", w); } };
struct T2 { typedef I::sm9_fp2_t T; static constexpr int N_ = 2; static const char* nm() { return "fp2"; } static void set(T r, const F12& v) { set2(r, low2(v)); } static F12 get(const T r) { return s9::lift2(get2(r)); }
    static constexpr auto add = I::sm9_fp2_add, sub = I::sm9_fp2_sub, mul = I::sm9_fp2_mul; static constexpr auto neg = I::sm9_fp2_neg, sqr = I::sm9_fp2_sqr, inv = I::sm9_fp2_inv, cpy = I::sm9_fp2_cpy; static constexpr auto eq = I::sm9_fp2_equal; static constexpr auto ez = I::sm9_fp2_equal_zero, eo = I::sm9_fp2_equal_one; static constexpr auto sz = I::sm9_fp2_set_zero, so = I::sm9_fp2_set_one; static constexpr auto tb = I::sm9_fp2_to_bytes; static constexpr auto fb = I::sm9_fp2_from_bytes; };
struct T4 { typedef I::sm9_fp4_t T; static constexpr int N_ = 4; static const char* nm() { return "fp4"; } static void set(T r, const F12& v) { set4(r, v); } static F12 get(const T r) { return get4(r); }
    static constexpr auto add = I::sm9_fp4_add, sub = I::sm9_fp4_sub, mul = I::sm9_fp4_mul; static constexpr auto neg = I::sm9_fp4_neg, sqr = I::sm9_fp4_sqr, inv = I::sm9_fp4_inv, cpy = I::sm9_fp4_cpy; static constexpr auto eq = I::sm9_fp4_equal; static constexpr auto ez = I::sm9_fp4_equal_zero, eo = I::sm9_fp4_equal_one; static constexpr auto sz = I::sm9_fp4_set_zero, so = I::sm9_fp4_set_one; static constexpr auto tb = I::sm9_fp4_to_bytes; static constexpr auto fb = I::sm9_fp4_from_bytes; };
struct T12 { typedef I::sm9_fp12_t T; static constexpr int N_ = 12; static const char* nm() { return "fp12"; } static void set(T r, const F12& v) { set12(r, v); } static F12 get(const T r) { return get12(r); }
    static constexpr auto add = I::sm9_fp12_add, sub = I::sm9_fp12_sub, mul = I::sm9_fp12_mul; static constexpr auto neg = I::sm9_fp12_neg, sqr = I::sm9_fp12_sqr, inv = I::sm9_fp12_inv, cpy = I::sm9_fp12_cpy; static constexpr auto eq = I::sm9_fp12_equal; static constexpr auto ez = I::sm9_fp12_equal_zero, eo = I::sm9_fp12_equal_one; static constexpr auto sz = I::sm9_fp12_set_zero, so = I::sm9_fp12_set_one; static constexpr auto tb = I::sm9_fp12_to_bytes; static constexpr auto fb = I::sm9_fp12_from_bytes; };
template <class X> Bytes encx(const F12& a) { Bytes e = r9::enc(a); if (X::N_ == 12) return e; if (X::N_ == 4) return Bytes(e.end() - 128, e.end()); return Bytes(e.end() - 64, e.end()); }
template <class X, class F> void un(const char* op, F f, const F12& a, const F12& want)
{
    Boxed<typename X::T> x, r; X::set(x.v, a); memset(r.v, 0x5a, sizeof r.v); f(r.v, x.v); mc::eval(2);
    if (X::get(r.v) != want) mc::fail(op, "%s %s of %s: %s, expected %s", X::nm(), op, r9::str(a).c_str(), r9::str(X::get(r.v)).c_str(), r9::str(want).c_str());
    if (X::get(x.v) != a) mc::fail(op, "%s %s modifies its operand", X::nm(), op); f(x.v, x.v); if (X::get(x.v) != want) mc::fail(op, "%s %s in place of %s", X::nm(), op, r9::str(a).c_str()); x.ok(op); r.ok(op);
}
template <class X, class F> void bin(const char* op, F f, const F12& a, const F12& b, const F12& want)
{
    Boxed<typename X::T> x, y, r; X::set(x.v, a); X::set(y.v, b); memset(r.v, 0x5a, sizeof r.v); f(r.v, x.v, y.v); mc::eval(3);
    if (X::get(r.v) != want) mc::fail(op, "%s %s of %s and %s: %s, expected %s", X::nm(), op, r9::str(a).c_str(), r9::str(b).c_str(), r9::str(X::get(r.v)).c_str(), r9::str(want).c_str());
    if (X::get(x.v) != a || X::get(y.v) != b) mc::fail(op, "%s %s modifies an operand", X::nm(), op);
    X::set(r.v, a); f(r.v, r.v, y.v); if (X::get(r.v) != want) mc::fail(op, "%s %s, result in the first operand, of %s and %s", X::nm(), op, r9::str(a).c_str(), r9::str(b).c_str());
    X::set(r.v, b); f(r.v, x.v, r.v); if (X::get(r.v) != want) mc::fail(op, "%s %s, result in the second operand, of %s and %s", X::nm(), op, r9::str(a).c_str(), r9::str(b).c_str());
    x.ok(op); y.ok(op); r.ok(op);
}
template <class X> void unary(const F12& a)
{
    typename X::T x; const F12 z = f12(), one = f12one(); un<X>("neg", X::neg, a, z - a); un<X>("sqr", X::sqr, a, a * a); un<X>("cpy", X::cpy, a, a);
    if (a != z) { Boxed<typename X::T> r; X::set(x, a); X::inv(r.v, x); F12 i = X::get(r.v); r.ok("inv"); if (i * a != one) mc::fail("inv", "%s inverse of %s: %s", X::nm(), r9::str(a).c_str(), r9::str(i).c_str()); X::inv(x, x); if (X::get(x) != i) mc::fail("inv", "%s inverse in place of %s", X::nm(), r9::str(a).c_str()); }
    X::set(x, a); if (X::ez(x) != (a == z)) mc::fail("equal_zero", "%s %s", X::nm(), r9::str(a).c_str()); if (X::eo(x) != (a == one)) mc::fail("equal_one", "%s %s", X::nm(), r9::str(a).c_str());
    Bytes e = encx<X>(a); mc::Tight T(512); T.set(e.size()); X::tb(T.p, x); if (memcmp(T.p, e.data(), e.size()) || !T.ok()) mc::fail("to_bytes", "%s %s: %s", X::nm(), r9::str(a).c_str(), mc::hex(T.p, e.size()).c_str()); typename X::T y; memset(y, 0x5a, sizeof y); X::fb(y, T.p); if (X::get(y) != a) mc::fail("from_bytes", "%s %s", X::nm(), r9::str(a).c_str());
    X::sz(y); if (X::get(y) != z) mc::fail("set_zero", "%s", X::nm()); X::so(y); if (X::get(y) != one) mc::fail("set_one", "%s", X::nm()); mc::eval(6);
    Boxed<typename X::T> t; for (int op = 0; op < 3; op++) { X::set(t.v, a); if (op == 0) X::add(t.v, t.v, t.v); else if (op == 1) X::sub(t.v, t.v, t.v); else X::mul(t.v, t.v, t.v); if (X::get(t.v) != (op == 0 ? a + a : op == 1 ? z : a * a)) mc::fail("self", "%s %s with itself in place: %s", X::nm(), op == 0 ? "sum" : op == 1 ? "difference" : "product", r9::str(a).c_str()); t.ok("self"); }
}
template <class X> void binary(const F12& a, const F12& b)
{
    bin<X>("add", X::add, a, b, a + b); bin<X>("sub", X::sub, a, b, a - b); bin<X>("mul", X::mul, a, b, a * b); typename X::T x, y; X::set(x, a); X::set(y, b); if (X::eq(x, y) != (a == b)) mc::fail("equal", "%s %s and %s", X::nm(), r9::str(a).c_str(), r9::str(b).c_str());
}
SCENARIO("fp2", [] { return (long)E2.size(); }, [](long it) {
    F12 a = s9::lift2(E2[it]); mc::at("element %ld", it); unary<T2>(a); const F12 u = mono(small(1), 6); un<T2>("dbl", I::sm9_fp2_dbl, a, a + a); un<T2>("tpl", I::sm9_fp2_tpl, a, a + a + a); un<T2>("mul_u", I::sm9_fp2_mul_u, a, a * u);
    for (size_t j = 0; j < V.size(); j += 9) { I::sm9_fp_t s; set(s, V[j]); mc::at("element %ld times scalar %ld", it, j); un<T2>("mul_fp", [&](I::sm9_fp2_t r, const I::sm9_fp2_t x) { I::sm9_fp2_mul_fp(r, x, s); }, a, a * scalar(V[j])); }
    for (size_t j = 0; j < E2.size(); j++) { mc::at("elements %ld %ld", it, j); mc::state(mc::hashv(4, it, j)); binary<T2>(a, s9::lift2(E2[j])); } if (it == 20) mc::sample("%s with every element", r9::str(E2[it]).c_str()); })
SCENARIO("fp4", [] { return (long)E4.size(); }, [](long it) {
    const F12& a = E4[it]; mc::at("element %ld", it); unary<T4>(a); un<T4>("mul_v", I::sm9_fp4_mul_v, a, a * mono(small(1), 3));
    for (size_t j = 0; j < V.size(); j += 29) { I::sm9_fp_t s; set(s, V[j]); un<T4>("mul_fp", [&](I::sm9_fp4_t r, const I::sm9_fp4_t x) { I::sm9_fp4_mul_fp(r, x, s); }, a, a * scalar(V[j])); }
    for (size_t j = 0; j < E2.size(); j += 3) { I::sm9_fp2_t s; set2(s, E2[j]); un<T4>("mul_fp2", [&](I::sm9_fp4_t r, const I::sm9_fp4_t x) { I::sm9_fp4_mul_fp2(r, x, s); }, a, a * s9::lift2(E2[j])); }
    for (size_t j = 0; j < E4.size(); j += mc::thorough() ? 1 : 2) { mc::at("elements %ld %ld", it, j); mc::state(mc::hashv(5, it, j)); binary<T4>(a, E4[j]); } })
SCENARIO("fp12", [] { return (long)E12.size(); }, [](long it) {
    const F12& a = E12[it]; mc::at("element %ld", it); unary<T12>(a);
    for (size_t j = 0; j < E4.size(); j += 4) { I::sm9_fp4_t s; set4(s, E4[j]); un<T12>("mul_fp4", [&](I::sm9_fp12_t r, const I::sm9_fp12_t x) { I::sm9_fp12_mul_fp4(r, x, s); }, a, a * E4[j]); }
    for (size_t j = 0; j < E12.size(); j++) { mc::at("elements %ld %ld", it, j); mc::state(mc::hashv(6, it, j)); binary<T12>(a, E12[j]); } if (it == 60) mc::sample("%s with every element", r9::str(a).c_str()); })
static std::vector<N>& EXPS() { static std::vector<N> v = [] { std::vector<N> r; neighbours(r, small(18), 18); neighbours(r, N9(), 3); for (int i = 0; i < 256; i += mc::thorough() ? 1 : 3) { r.push_back(pow2(i)); r.push_back(rn::sub(pow2(i), 1)); } for (int i = 0; i < 64; i++) for (u64 d : {1, 7, 8, 15}) if (mc::thorough() || (i + d) % 4 == 0) { N x = zero(); x.w[i / 16] = d << (4 * (i % 16)); r.push_back(x); } for (int i = 0; i < 20; i++) r.push_back(filler(i)); r.push_back(rn::sub(zero(), 1)); uniq(r); return r; }(); return v; }
SCENARIO("fp12 pow", [] { return (long)EXPS().size(); }, [](long it) {
    const N& e = EXPS()[it]; u8 eb[32]; rn::put(eb, e); std::vector<F12> bs = {E12[1], E12[E12.size() - 8], gt(), E12[40]}; if (it % 8 == 0) bs.push_back(f12());
    for (size_t k = 0; k < bs.size(); k++) { const F12& a = bs[k]; if (a == f12() && rn::is0(e)) continue; I::sm9_fp12_t x, r; set12(x, a); mc::at("base %ld exponent %ld", k, it); mc::state(mc::hashv(7, k, it)); F12 want = power(a, e); I::sm9_fp12_pow(r, x, eb); if (get12(r) != want) mc::fail("pow", "%s to the power %s", r9::str(a).c_str(), rn::str(e).c_str()); I::sm9_fp12_pow(x, x, eb); if (get12(x) != want) mc::fail("pow", "in place: %s to the power %s", r9::str(a).c_str(), rn::str(e).c_str()); mc::eval(2); } })
// --- groups ---------------------------------------------------------------
template <class G> std::vector<typename G::P> bases();
template <> std::vector<Pt> bases<G1>() { const Curve& c = sm9c(); std::vector<Pt> r = {c.g, c.neg(c.g), c.mulg(small(2)), c.mulg(filler(3))}; N y; int n = 0; for (u64 x = 0; n < 3; x++) if (c.lift(y, small(x), x & 1)) { r.push_back(pt(small(x), y)); n++; } n = 0; for (u64 x = 1; n < 2; x++) if (c.lift(y, rn::sub(c.p, x), x & 1)) { r.push_back(pt(rn::sub(c.p, x), y)); n++; } return r; }
// a scalar is taken modulo N, which is meant for points of order N: every point of G1, but of the twist only those of the subgroup
template <class G> size_t whole();
template <> size_t whole<G1>() { return 1000; }
template <> size_t whole<G2>() { return 4; }
template <> std::vector<P2> bases<G2>()
{   // also points of the twist outside the subgroup, with small or special coordinates
    const Twist& c = tw(); std::vector<P2> r = {c.g, c.neg(c.g), c.mulg(small(2)), c.mulg(filler(3))}; F2 y; int n = 0; for (u64 x = 0; n < 4 && x < 60; x++) { F2 v = x % 3 == 0 ? f2(x) : x % 3 == 1 ? f2(0, x) : f2(rn::sub(P9(), x), small(x)); if (s9::lift2(y, v)) { r.push_back(p2(v, y)); n++; } } for (auto& p : r) if (!c.on(p)) _exit(90); return r;
}
template <class G> void mul_case(const N& k, const typename G::P& P, bool g)
{
    typedef typename G::P PP; u8 kb[32]; rn::put(kb, k); PP want = g ? G::c().mulg(k) : G::c().mul(k, P); struct { u64 pre; typename G::J j; u64 post; } R; memset(&R, 0x5a, sizeof R); typename G::A A; seta<G>(A, P);
    G::mul_a(R.j, kb, A); PP got = getj<G>(R.j); mc::eval(); if (got != want) mc::fail("mul", "k=%s P=%s: got %s want %s", rn::str(k).c_str(), G::show(P).c_str(), G::show(got).c_str(), G::show(want).c_str());
    if (R.pre != 0x5a5a5a5a5a5a5a5aull || R.post != R.pre || geta<G>(A) != P) mc::fail("bounds", "scalar multiplication modified other memory"); if (G::is_inf(R.j) != want.inf) mc::fail("is_inf", "k=%s P=%s", rn::str(k).c_str(), G::show(P).c_str());
    if (!want.inf) { union { typename G::A a; typename G::J j; } u; G::cpy(u.j, R.j); G::to_a(u.a, u.j); if (geta<G>(u.a) != want) mc::fail("to_a", "k=%s P=%s", rn::str(k).c_str(), G::show(P).c_str()); }
    if (g) { typename G::J T; G::mul_g(T, kb); if (getj<G>(T) != want) mc::fail("mul_g", "k=%s: got %s want %s", rn::str(k).c_str(), G::show(getj<G>(T)).c_str(), G::show(want).c_str()); mc::eval(); }
}
template <class G> void muls(long it, long of, int tag)
{
    static std::vector<typename G::P> B = bases<G>(); int st = mc::thorough() ? 2 : 40;
    for (size_t i = it; i < SC.size(); i += of) { mc::at("scalar %ld", i); mc::tick(); mc::state(mc::hashv(tag, i, 0)); mul_case<G>(SC[i], B[0], true); for (size_t b = 1; b < B.size(); b++) if (((i + b * 5) % st == 0 || i < 4) && !(b >= whole<G>() && !(SC[i] < N9()))) { mc::at("scalar %ld base %ld", i, b); mc::state(mc::hashv(tag, i, b)); mul_case<G>(SC[i], B[b], false); } }
}
SCENARIO("G1 multiples", 128, [](long it) { muls<G1>(it, 128, 10); })
SCENARIO("G2 multiples", 256, [](long it) { muls<G2>(it, 256, 11); })
template <class G> void group(long it, int tag)
{
    typedef typename G::P PP; enum { R = 5 }; static std::vector<PP> BB = bases<G>(); int i = (int)(it % (2 * R + 1)) - R; const PP& B = BB[it / (2 * R + 1) * 2]; auto& c = G::c();
    std::vector<PP> M(2 * R + 1); for (int k = 0; k <= R; k++) { M[R + k] = c.mul(small(k), B); M[R - k] = c.neg(M[R + k]); } auto Z = G::zs(); const PP& P = M[i + R];
    auto chk = [&](const char* key, const PP& got, const PP& want, long a, long b) { mc::eval(); if (got != want) mc::fail(key, "%ldB and %ldB: got %s want %s", a, b, G::show(got).c_str(), G::show(want).c_str()); };
    for (size_t z1 = 0; z1 < Z.size(); z1++) {
        typename G::J p, r, t; setj<G>(p, P, Z[z1]); mc::at("base %ld: %ldB, form %ld", it / (2 * R + 1), i, z1); memset(r, 0x5a, sizeof r); G::dbl(r, p); chk("dbl", getj<G>(r), c.add2(P, P), i, i); G::cpy(t, p); G::dbl(t, t); chk("dbl in place", getj<G>(t), c.add2(P, P), i, i);
        G::neg(r, p); chk("neg", getj<G>(r), c.neg(P), i, i); G::cpy(t, p); G::neg(t, t); chk("neg in place", getj<G>(t), c.neg(P), i, i); G::normal(r, p); chk("normal", getj<G>(r), P, i, i); if (!P.inf && !G::z_one(r)) mc::fail("normal", "z is not one"); G::cpy(t, p); G::normal(t, t); chk("normal in place", getj<G>(t), P, i, i); if (G::is_inf(p) != P.inf) mc::fail("is_inf", "%ldB", (long)i);
        typename G::A a, na; if (!P.inf) { G::to_a(a, p); if (geta<G>(a) != P) mc::fail("to_a", "%ldB", (long)i); G::a_neg(na, a); if (geta<G>(na) != c.neg(P)) mc::fail("neg affine", "%ldB", (long)i); G::a_cpy(na, a); G::a_neg(na, na); if (geta<G>(na) != c.neg(P)) mc::fail("neg affine in place", "%ldB", (long)i); G::from_a(r, a); chk("from_a", getj<G>(r), P, i, i); if (!G::check(a)) mc::fail("check", "a curve point is rejected"); }
        G::set_inf(r); if (!G::is_inf(r)) mc::fail("set_inf", "not infinity");
        for (int j = -R; j <= R; j++) for (size_t z2 = 0; z2 < Z.size(); z2++) {
            const PP& Q = M[j + R]; PP S = c.add2(P, Q); typename G::J q; setj<G>(q, Q, Z[z2]); mc::at("base %ld: %ldB + %ldB, forms %ld %ld", it / (2 * R + 1), i, j, z1, z2); mc::state(mc::hashv(tag, it, j, z1, z2));
            memset(r, 0x5a, sizeof r); G::add(r, p, q); chk("add", getj<G>(r), S, i, j); G::cpy(t, p); G::add(t, t, q); chk("add r=a", getj<G>(t), S, i, j); G::cpy(t, q); G::add(t, p, t); chk("add r=b", getj<G>(t), S, i, j); if (G::equal(p, q) != (P == Q)) mc::fail("equal", "%ldB and %ldB compare wrongly", (long)i, (long)j);
            if (z2 == 0 && !Q.inf) { seta<G>(a, Q); G::add_a(r, p, a); chk("add_a", getj<G>(r), S, i, j); G::cpy(t, p); G::add_a(t, t, a); chk("add_a r=a", getj<G>(t), S, i, j); }
        }
        G::cpy(t, p); G::add(t, t, t); chk("add r=a=b", getj<G>(t), c.add2(P, P), i, i);
    }
    if (it == 4) mc::sample("all sums iB+jB, |i|,|j|<=%d, %zu Jacobian forms each", (int)R, Z.size());
}
SCENARIO("G1 group", 33, [](long it) { group<G1>(it, 12); })
SCENARIO("G2 group", 33, [](long it) { group<G2>(it, 13); })
// --- point encodings ------------------------------------------------------
template <class G> bool canon(const u8* b) { for (int i = 0; i < G::W; i += 32) if (!(rn::get(b + i) < P9())) return false; return true; }
template <class G> typename G::C rd(const u8* b); template <> N rd<G1>(const u8* b) { return mod(rn::get(b), P9()); } template <> F2 rd<G2>(const u8* b) { F2 v = dec2(b); return {mod(v.a, P9()), mod(v.b, P9())}; }
template <class G> bool refdec(typename G::P& P, size_t& n, const Bytes& b)
{
    if (b.empty()) return false; int f = b[0]; bool lng = f == 4 || f == 6 || f == 7; if (!lng && f != 2 && f != 3) return false; n = 1 + (lng ? 2 : 1) * G::W; if (b.size() < n || !canon<G>(&b[1])) return false;
    if (lng) { if (!canon<G>(&b[1 + G::W])) return false; P = G::make(rd<G>(&b[1]), rd<G>(&b[1 + G::W])); if (f != 4 && (f & 1) != (b[2 * G::W] & 1)) return false; return G::c().on(P); }
    if constexpr (G::W == 32) { N y; if (!sm9c().lift(y, rn::get(&b[1]), f & 1)) return false; P = pt(rn::get(&b[1]), y); return true; } else return false;      // no compressed form of G2 points on input
}
template <class G> void judge(const Bytes& b, const char* what)
{
    typename G::P w; size_t wn = 0; bool want = refdec<G>(w, wn, b); static mc::Tight T(300); T.set(b); struct { u64 pre; typename G::A a; u64 post; } R; memset(&R, 0x5a, sizeof R); size_t n = 777; bool got = G::from(R.a, &n, T.p, b.size()) == 0; mc::eval(); mc::state(mc::hash(b.data(), b.size(), G::W));
    if (got != want) mc::fail(want ? "refused" : "accepted", "%s: %zu bytes %s are %s", what, b.size(), mc::hex(b).c_str(), got ? "accepted" : "refused"); if (R.pre != 0x5a5a5a5a5a5a5a5aull || R.post != R.pre) mc::fail("bounds", "%s: wrote outside the point", what);
    if (want) { if (n != wn) mc::fail("length", "%s: reports %zu bytes read, expected %zu", what, n, wn); typename G::P g = geta<G>(R.a); if (g != w) mc::fail("value", "%s: %s decodes to %s", what, mc::hex(b).c_str(), G::show(g).c_str()); if (!G::check(R.a)) mc::fail("check", "%s: decoded point fails the check", what); }
}
template <class G> std::vector<typename G::P> points() { auto v = bases<G>(); for (u64 k = 3; k < 20; k++) { v.push_back(G::c().mulg(small(k))); v.push_back(G::c().neg(v.back())); } return v; }
template <class G> void encode(long it)
{
    static auto PS = points<G>(); if (it >= (long)PS.size()) return; const auto& P = PS[it]; typename G::A A; seta<G>(A, P); mc::at("point %ld", it); const int L = 1 + 2 * G::W; std::vector<u8> o(L + 16);
    for (int f = 0; f < 3; f++) {
        Bytes e = encp<G>(P, f); std::fill(o.begin(), o.end(), 0x6b); if (f == UNC) G::unc(&o[8], A); else if (f == COM) G::com(&o[8], A); else G::mix(&o[8], A);
        bool free1 = f == COM && G::W == 64; // the sign of a compressed G2 point is not fixed anywhere and cannot be read back
        mc::eval(); if (memcmp(&o[9], &e[1], e.size() - 1) || (free1 ? (o[8] | 1) != 3 : o[8] != e[0])) mc::fail("encode", "format %d of %s: %s, expected %s", f, G::show(P).c_str(), mc::hex(&o[8], e.size()).c_str(), mc::hex(e).c_str()); for (size_t i = 0; i < o.size(); i++) if ((i < 8 || i >= 8 + e.size()) && o[i] != 0x6b) mc::fail("bounds", "format %d writes outside", f);
        judge<G>(e, "encoding of a point"); for (int extra : {1, 2, 31, 32, 33, 64, 65}) { Bytes x = e; x.resize(e.size() + extra, 0xAB); judge<G>(x, "encoding followed by other bytes"); } for (int v = 0; v < 256; v++) { Bytes x = e; x[0] = (u8)v; judge<G>(x, "other first byte"); }
        for (size_t n = 0; n < e.size(); n++) { Bytes x(e.begin(), e.begin() + n); judge<G>(x, "truncated"); if (n) for (int v : {2, 3, 4, 6, 7}) { x[0] = (u8)v; judge<G>(x, "truncated, other format"); } }
        for (size_t i = 1; i < e.size(); i++) for (int bit = 0; bit < 8; bit += mc::thorough() ? 1 : 3) { Bytes x = e; x[i] ^= (u8)(1 << bit); judge<G>(x, "bit changed"); }
    }
    for (int k = 0; k < 2 * G::W / 32; k++) for (int f : {4, 6, 7, 2, 3}) { Bytes x = encp<G>(P, UNC); x[0] = (u8)f; N v = rn::get(&x[1 + 32 * k]); int cy; N w = rn::add(v, P9(), &cy); if (!cy) { Bytes y = x; rn::put(&y[1 + 32 * k], w); judge<G>(y, "coordinate plus p"); } for (auto& q : {zero(), P9(), rn::sub(P9(), 1), rn::sub(zero(), 1), rn::add(v, 1), fn(v)}) { Bytes y = x; rn::put(&y[1 + 32 * k], q); judge<G>(y, "other coordinate"); } }
    Bytes b4 = encp<G>(P, UNC); u8 out[128]; G::to04(out, A); if (memcmp(out, &b4[1], 2 * G::W)) mc::fail("to04", "%s", G::show(P).c_str()); typename G::A B; G::from04(B, out); if (geta<G>(B) != P) mc::fail("from04", "%s", G::show(P).c_str());
}
SCENARIO("G1 encodings", 48, [](long it) { encode<G1>(it); if (it == 5) { const Curve& c = sm9c(); (void)c; for (u64 x = 0; x < 400; x++) for (int f : {2, 3}) for (int s = 0; s < 3; s++) { N v = s == 0 ? small(x) : s == 1 ? rn::sub(P9(), x) : rn::sub(zero(), 1 + x); Bytes b{(u8)f}; cat(b, v); mc::at("compressed %ld %ld", x, s); judge<G1>(b, "compressed"); } } })
SCENARIO("G2 encodings", 48, [](long it) { encode<G2>(it); })
MC_MAIN
