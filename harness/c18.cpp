// C18: SM2 point encodings.
#include "sm2if.h"
using namespace s2;
static std::vector<Pt>& PTS()
{
    static std::vector<Pt> v = [] {
        std::vector<Pt> r; const Curve& c = sm2c(); N y; for (u64 k = 1; k < 40; k++) { r.push_back(c.mulg(small(k))); r.push_back(c.neg(r.back())); }
        for (u64 x = 0; x < 40; x++) for (int b = 0; b < 2; b++) { if (c.lift(y, small(x), b)) r.push_back(pt(small(x), y)); if (c.lift(y, sub(c.p, x + 1), b)) r.push_back(pt(sub(c.p, x + 1), y)); if (c.lift(y, add(c.n, x), b)) r.push_back(pt(add(c.n, x), y)); }
        for (int i = 0; i < 256; i++) for (int b = 0; b < 2; b++) if (c.lift(y, pow2(i), b)) r.push_back(pt(pow2(i), y));
        const char* xs[] = {"9c17043effe1a805a74a9a5e70b9d659705d3242094a566dc016f49311178d1f", "3b404f94e46027d11401987cd5acb2953e4bff91a7d856b40986700015b4f8a6", "1800ffcb38194ce0905766dfd6b9ce196095203d481ba8e4e614749d615cd506", "6c504604f185db67ce1a538451c37804e2121d283e1e31ca3f9bad74b6a40cf5"};
        for (u64 i = 0; i < 4; i++) { r.push_back(pt(hex(xs[i]), small(i + 1))); r.push_back(pt(hex(xs[i]), sub(c.p, i + 1))); }
        for (auto& p : r) if (!c.on(p)) { fprintf(stderr, "point list\n"); _exit(90); }
        return r; }();
    return v;
}
static void judge(const Bytes& b, const char* what, mc::Tight& T)
{
    Pt w; size_t wn = 0; bool want = dec(sm2c(), w, wn, b) == 0;
    T.set(b); T.g.ro(true); struct { u64 pre; I::sm2_ec_a a; u64 post; } R; memset(&R, 0x5a, sizeof R); size_t n = 777;
    bool got = I::sm2_ec_a_from_bytes(R.a, &n, T.p, b.size()) == 0; T.g.ro(false); mc::eval(); mc::state(mc::hash(b.data(), b.size()));
    if (got != want) mc::fail(want ? "refused" : "accepted", "%s: %zu bytes %s are %s", what, b.size(), mc::hex(b).c_str(), got ? "accepted" : "refused");
    if (R.pre != 0x5a5a5a5a5a5a5a5aull || R.post != R.pre) mc::fail("bounds", "%s: wrote outside the point", what);
    if (want) { if (n != wn) mc::fail("length", "%s: reports %zu bytes read, expected %zu", what, n, wn); Pt g = getp(R.a); if (g != w) mc::fail("value", "%s: %s decodes to %s, expected %s", what, mc::hex(b).c_str(), re::str(g).c_str(), re::str(w).c_str()); }
}
// every point in every format: encoding, decoding, every first byte, every length, neighbours of the coordinates
SCENARIO("encode", [] { return (long)PTS().size(); }, [](long it) {
    const Pt& P = PTS()[it]; mc::Tight T(200); I::sm2_ec_a A; setp(A, P); mc::at("point %ld", it);
    struct { u8 pre[8], b[65], post[8]; } o;
    for (int f = 0; f < 3; f++) {
        Bytes e = enc(P, f); memset(&o, 0x6b, sizeof o);
        if (f == UNC) I::sm2_ec_a_to_bytes_uncompressed(o.b, A); else if (f == COM) I::sm2_ec_a_to_bytes_compressed(o.b, A); else I::sm2_ec_a_to_bytes_mix(o.b, A);
        mc::eval(); if (memcmp(o.b, e.data(), e.size())) mc::fail("encode", "format %d of %s: %s, expected %s", f, re::str(P).c_str(), mc::hex(o.b, e.size()).c_str(), mc::hex(e).c_str());
        for (size_t i = e.size(); i < 65; i++) if (o.b[i] != 0x6b) mc::fail("bounds", "format %d writes %zu bytes", f, i + 1); for (int i = 0; i < 8; i++) if (o.pre[i] != 0x6b || o.post[i] != 0x6b) mc::fail("bounds", "format %d writes outside", f);
        judge(e, "encoding of a point", T);
        for (int extra : {1, 2, 31, 32, 33, 40}) { Bytes x = e; x.resize(e.size() + extra, 0xAB); judge(x, "encoding followed by other bytes", T); }
        for (int v : {0, 1, 2, 3, 4, 5, 6, 7, 8, 0x80, 0xff}) { Bytes x = e; x[0] = (u8)v; judge(x, "other first byte", T); }
    }
    if (it == 3) mc::sample("%s in three formats", re::str(P).c_str()); })
// successive multiples of the generator, in all formats and back
SCENARIO("chain", 64, [](long it) {
    const Curve& c = sm2c(); long n = mc::thorough() ? 4096 : 512; Curve::J q = c.proj(c.mulg(small(it * n + 1))), g = c.proj(c.g); mc::Tight T(200); I::sm2_ec_a A;
    for (long i = 0; i < n; i++, q = c.addj(q, g)) { Pt P = c.aff(q); mc::at("multiple %ld of the generator", it * n + 1 + i); setp(A, P); for (int f = 0; f < 3; f++) { Bytes e = enc(P, f); u8 o[65]; memset(o, 0x3c, 65);
        if (f == UNC) I::sm2_ec_a_to_bytes_uncompressed(o, A); else if (f == COM) I::sm2_ec_a_to_bytes_compressed(o, A); else I::sm2_ec_a_to_bytes_mix(o, A); mc::eval();
        if (memcmp(o, e.data(), e.size())) mc::fail("encode", "format %d of %s: %s, expected %s", f, re::str(P).c_str(), mc::hex(o, e.size()).c_str(), mc::hex(e).c_str()); judge(e, "encoding of a point", T); } }
    if (it == 1) mc::sample("%ld successive multiples of the generator in three formats", n); })
SCENARIO("lengths", 8, [](long it) { mc::Tight T(200); const Pt& P = PTS()[it * 13]; for (int f = 0; f < 3; f++) { Bytes e = enc(P, f); for (size_t n = 0; n <= 100; n++) { Bytes x = e; x.resize(n, 0); mc::at("point %ld format %ld length %ld", it, f, n); judge(x, "every length", T); x[0 < n ? 0 : 0]; if (n > 33) { Bytes q = x; q[0] = 2; judge(q, "long compressed", T); } for (int v : {2, 3, 4, 6, 7}) if (n) { Bytes q = x; q[0] = (u8)v; judge(q, "every length and format", T); } } } })
SCENARIO("firstbyte", 256, [](long b) { mc::Tight T(200); for (int k = 0; k < 6; k++) for (size_t n : {1, 2, 32, 33, 34, 64, 65, 66, 70}) { Bytes e = enc(PTS()[k * 7], k & 1 ? UNC : MIX); e.resize(n, 0); e[0] = (u8)b; mc::at("first byte %ld", b); judge(e, "every first byte", T); } })
// coordinates off by little, by p, swapped; single bits
SCENARIO("neighbours", 128, [](long it) {
    mc::Tight T(200); const Curve& c = sm2c(); long cnt = 0;
    for (auto& P : PTS()) { if (cnt++ % 128 != it) continue; mc::at("point %ld", cnt);
        std::vector<Pt> q; for (int dx = -2; dx <= 2; dx++) for (int dy = -2; dy <= 2; dy++) q.push_back(pt(dx < 0 ? sub(P.x, -dx) : add(P.x, dx), dy < 0 ? sub(P.y, -dy) : add(P.y, dy)));
        q.push_back(pt(add(P.x, c.p), P.y)); q.push_back(pt(P.x, add(P.y, c.p))); q.push_back(pt(add(P.x, c.p), add(P.y, c.p))); q.push_back(pt(P.y, P.x)); q.push_back(pt(P.x, zero())); q.push_back(pt(zero(), P.y)); q.push_back(pt(P.x, c.p)); q.push_back(pt(c.p, P.y)); q.push_back(pt(P.x, sub(zero(), 1)));
        for (int b = 0; b < 256; b += mc::thorough() ? 1 : 11) { Pt z = P; z.x.w[b / 64] ^= (u64)1 << (b % 64); q.push_back(z); z = P; z.y.w[b / 64] ^= (u64)1 << (b % 64); q.push_back(z); }
        c.off(q, P.x);
        for (auto& z : q) for (int f : {2, 3, 4, 6, 7}) { Bytes e; e.push_back((u8)f); cat(e, z.x); if (f > 3) cat(e, z.y); judge(e, "neighbour of a point", T); }
    } })
// compressed form of every x near the edges, most without a point
SCENARIO("compressed", 64, [](long it) {
    mc::Tight T(200); const Curve& c = sm2c(); std::vector<N> xs; neighbours(xs, small(100), 100); neighbours(xs, c.p, 100); neighbours(xs, sub(zero(), 101), 100); neighbours(xs, c.n, 50); for (int i = 0; i < 256; i++) neighbours(xs, pow2(i), 1); for (int i = 0; i < 200; i++) xs.push_back(filler(i));
    for (size_t i = it; i < xs.size(); i += 64) for (int f : {2, 3}) { Bytes e; e.push_back((u8)f); cat(e, xs[i]); mc::at("x %ld", i); judge(e, "compressed", T); } })
// square roots: r^2 = a for squares, refusal otherwise
SCENARIO("sqrt", 64, [](long it) {
    const Curve& c = sm2c(); std::vector<N> xs; neighbours(xs, small(60), 60); for (int i = 0; i < 256; i++) { xs.push_back(pow2(i)); xs.push_back(sub(c.p, pow2(i))); } for (int i = 0; i < 100; i++) xs.push_back(mod(filler(i), c.p)); u64 q[4]; N e = sub(c.p, 1); modw(e.w, 4, small(2), q); memcpy(e.w, q, 32);
    for (size_t i = it; i < xs.size(); i += 64) { N a = mod(xs[i], c.p); I::sm2_fp_t f, r; u8 b[32]; rn::put(b, a); I::sm2_fp_from_bytes(f, b); bool want = is0(a) || powm(a, e, c.p) == small(1); mc::at("value %ld", i); bool got = I::sm2_fp_sqrt(r, f) == 0; mc::eval(); mc::state(mc::hashv(5, rn::h(a))); if (want != got) mc::fail("sqrt", "square root of %s: %s", rn::str(a).c_str(), got ? "found" : "not found"); if (got) { I::sm2_fp_to_bytes(b, r); N g = rn::get(b); if (c.M(g, g) != a) mc::fail("sqrt", "wrong square root of %s", rn::str(a).c_str()); I::sm2_fp_sqrt(f, f); I::sm2_fp_to_bytes(b, f); if (rn::get(b) != g) mc::fail("sqrt", "in place"); } } })
MC_MAIN
