// C27: xor of buffers and byte-order helpers, every size, alignment and aliasing.
#include "mc.h"
#include <utility>
#include <gmlib/memory_utils/memxor.h>
#include <gmlib/memory_utils/endian.h>
using namespace mc;
typedef void (*XF)(void*, const void*, const void*);
enum { NT = 580 };
static XF fixed_size[NT + 8]; static size_t fixed_n[NT + 8];
template <size_t N> static void put(size_t i) { fixed_size[i] = [](void* o, const void* a, const void* b) { memory_utils::memxor<N>(o, a, b); }; fixed_n[i] = N; }
template <size_t... I> static void put_all(std::index_sequence<I...>) { (put<I>(I), ...); }
SETUP([] { put_all(std::make_index_sequence<NT>()); put<640>(NT); put<767>(NT + 1); put<1023>(NT + 2); put<1024>(NT + 3); put<1055>(NT + 4); put<1535>(NT + 5); put<2047>(NT + 6); put<2080>(NT + 7); })
static void call(bool fixed, size_t idx, size_t n, u8* o, const u8* a, const u8* b) { if (fixed) fixed_size[idx](o, a, b); else memory_utils::memxor_n(o, a, b, n); }
static Bytes P, Q; static Tight *ta, *tb, *to_;
SETUP([] { P = filled(5000, 1); Q = filled(5000, 2); ta = new Tight(8192); tb = new Tight(8192); to_ = new Tight(8192); })
static void want(Bytes& w, size_t n, const u8* a, const u8* b) { w.resize(n); for (size_t i = 0; i < n; i++) w[i] = a[i] ^ b[i]; }
// buffers that end (and, for the head variant, start) at an inaccessible page; all aliasings
static void tight(bool fixed, size_t idx, size_t n)
{
    Bytes w; want(w, n, P.data(), Q.data()); Bytes a(P.begin(), P.begin() + n), b(Q.begin(), Q.begin() + n), z(n, 0);
    at("size %ld, separate buffers", n); ta->set(a); tb->set(b); to_->set(n); call(fixed, idx, n, to_->p, ta->p, tb->p); eval();
    expect_eq("xor", to_->p, w.data(), n, "out"); expect_eq("input", ta->p, a.data(), n, "first input afterwards"); expect_eq("input", tb->p, b.data(), n, "second input afterwards"); if (!to_->ok() || !ta->ok() || !tb->ok()) fail("before", "bytes before a buffer written");
    at("size %ld, out = first", n); ta->set(a); call(fixed, idx, n, ta->p, ta->p, tb->p); eval(); expect_eq("alias1", ta->p, w.data(), n, "out"); if (!ta->ok()) fail("before", "bytes before a buffer written");
    at("size %ld, out = second", n); ta->set(a); call(fixed, idx, n, tb->p, ta->p, tb->p); eval(); expect_eq("alias2", tb->p, w.data(), n, "out"); if (!tb->ok()) fail("before", "bytes before a buffer written");
    at("size %ld, first = second", n); call(fixed, idx, n, to_->p, ta->p, ta->p); eval(); expect_eq("same-inputs", to_->p, z.data(), n, "out");
    at("size %ld, all the same", n); call(fixed, idx, n, ta->p, ta->p, ta->p); eval(); expect_eq("all-same", ta->p, z.data(), n, "out");
    at("size %ld, buffers at the start of a page", n); u8 *ha = ta->g.head(), *hb = tb->g.head(), *ho = to_->g.head(); memcpy(ha, P.data(), n); memcpy(hb, Q.data(), n); memset(ho, 0x99, n + 64); call(fixed, idx, n, ho, ha, hb); eval(); expect_eq("xor", ho, w.data(), n, "out"); for (int i = 0; i < 64; i++) if (ho[n + i] != 0x99) fail("after", "byte %zu after the output written", (size_t)i);
    state(hashv(1, fixed, n));
}
static void aligned(bool fixed, size_t idx, size_t n, int step1, int step2)
{
    static u8 A[5200] __attribute__((aligned(64))), B[5200] __attribute__((aligned(64))), O[5200] __attribute__((aligned(64))); Bytes w; want(w, n, P.data(), Q.data());
    for (int i = 0; i < 32; i += step1) for (int j = 0; j < 32; j += step2) for (int k = 0; k < 32; k += step2) {
        at("size %ld, offsets %ld,%ld,%ld", n, k, i, j); memcpy(A + i, P.data(), n); memcpy(B + j, Q.data(), n); memset(O, 0x77, n + 100); call(fixed, idx, n, O + 32 + k, A + i, B + j); eval();
        expect_eq("xor", O + 32 + k, w.data(), n, "out"); for (int x = 0; x < 32; x++) if (O[x + k] != 0x77 || O[32 + k + n + x] != 0x77) fail("outside", "byte outside the output written");
        state(hashv(2, fixed, n, i, j, k));
    }
}
SCENARIO("sizes", [] { return thorough() ? 4700L : 1600L; }, [](long n) { tight(false, 0, n); if (n < 700) aligned(false, 0, n, thorough() ? 1 : 5, thorough() ? 3 : 7); sample("memxor_n, %ld bytes", n); })
SCENARIO("fixed-sizes", NT + 8, [](long i) { tight(true, i, fixed_n[i]); aligned(true, i, fixed_n[i], thorough() ? 1 : 5, thorough() ? 3 : 7); sample("memxor<%zu>", fixed_n[i]); })
SCENARIO("alignments", 70, [](long n) { aligned(false, 0, n, 1, 1); aligned(true, n, n, 1, 1); })
// every pair of byte values in every lane of a block of S bytes
SCENARIO("values", 16, [](long part) {
    Bytes a(65536), b(65536), o(65536), w; for (int i = 0; i < 65536; i++) { a[i] = (u8)(i >> 8); b[i] = (u8)i; } // lane l sees pairs (x, l mod 256): rotate to see all
    for (int rot = (int)part; rot < 256; rot += 16) { std::rotate(b.begin(), b.begin() + 1, b.end()); for (int i = 0; i < 65536; i++) b[i] = (u8)((i + rot) ^ (i >> 8)); want(w, 65536, a.data(), b.data()); at("rotation %ld", rot); memory_utils::memxor_n(o.data(), a.data(), b.data(), 65536); eval(); expect_eq("values", o.data(), w.data(), 65536, "out"); state(hashv(3, rot)); }
})
// one call over more bytes than 31 and 32 bits can count: periodic inputs, the whole output compared
SCENARIO("one-call", 2, [](long it) {
    const size_t Pz = 1 << 20; size_t n = ((size_t)1 << (31 + it)) + (it ? 4099 : 61); Repeat a(Pz, n / Pz + 1, 5), b(Pz, n / Pz + 1, 6);
    u8* o = (u8*)mmap(nullptr, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (o == (u8*)MAP_FAILED) _exit(90);
    Bytes w; want(w, Pz, a.p, b.p); at("one call over %ld bytes", n); memory_utils::memxor_n(o, a.p, b.p, n); eval();
    for (size_t i = 0; i < n; i += Pz) { tick(); size_t m = n - i < Pz ? n - i : Pz; expect_eq("long", o + i, w.data(), m, "output"); } for (size_t i = 0; i < 64; i++) if (o[n + i]) fail("outside", "byte after the output written");
    munmap(o, n + 4096); state(hashv(4, n)); sample("memxor_n, one call over %zu bytes", n); })
// --- byte order
template <class T> static T rd(const u8* p, bool be) { T v = 0; for (size_t i = 0; i < sizeof(T); i++) v |= (T)((T)p[i] << (8 * (be ? sizeof(T) - 1 - i : i))); return v; }
template <class T, class LL, class LB, class SL, class SB> static void order(T v, int off, LL ll, LB lb, SL sl, SB sb)
{
    constexpr size_t N = sizeof(T); u8 m[48]; memset(m, 0x5C, 48); u8* p = m + 16 + off; for (size_t i = 0; i < N; i++) p[i] = (u8)(v >> (8 * i));
    u8 c[48]; memcpy(c, m, 48); at("%ld-byte value 0x%016lx at offset %ld", N, (long)v, off); eval();
    if (ll(p) != v) fail("load-le", "little-endian load"); if (lb(p) != rd<T>(p, true)) fail("load-be", "big-endian load"); expect_eq("load-writes", m, c, 48, "memory after loads");
    u8 s[48], w[48]; memset(s, 0x5C, 48); sl(s + 16 + off, v); expect_eq("store-le", s, c, 48, "little-endian store"); memset(s, 0x5C, 48); memset(w, 0x5C, 48); sb(s + 16 + off, v); for (size_t i = 0; i < N; i++) w[16 + off + i] = (u8)(v >> (8 * (N - 1 - i))); expect_eq("store-be", s, w, 48, "big-endian store");
    if (lb(s + 16 + off) != v) fail("inverse", "load_be(store_be(x)) != x");
}
using namespace memory_utils;
static void o8(u8 v, int f) { order<u8>(v, f, [](u8* p) { return load8_le(p); }, [](u8* p) { return load8_be(p); }, [](u8* p, u8 x) { store8_le(p, x); }, [](u8* p, u8 x) { store8_be(p, x); }); }
static void o16(uint16_t v, int f) { order<uint16_t>(v, f, [](u8* p) { return load16_le(p); }, [](u8* p) { return load16_be(p); }, [](u8* p, uint16_t x) { store16_le(p, x); }, [](u8* p, uint16_t x) { store16_be(p, x); }); }
static void o32(u32 v, int f) { order<u32>(v, f, [](u8* p) { return load32_le(p); }, [](u8* p) { return load32_be(p); }, [](u8* p, u32 x) { store32_le(p, x); }, [](u8* p, u32 x) { store32_be(p, x); }); }
static void o64(u64 v, int f) { order<u64>(v, f, [](u8* p) { return load64_le(p); }, [](u8* p) { return load64_be(p); }, [](u8* p, u64 x) { store64_le(p, x); }, [](u8* p, u64 x) { store64_be(p, x); }); }
SCENARIO("byte-order", 16, [](long off) {
    for (int v = 0; v < 256; v++) o8((u8)v, off);
    for (int v = 0; v < 65536; v++) { o16((uint16_t)v, off); state(hashv(16, v, off)); }
    for (int base = 0; base < 3; base++) for (int i = 0; i < 8; i++) for (int j = 0; j <= i; j++) for (int x = 0; x < 256; x += i == j ? 1 : 5) for (int y = 0; y < (i == j ? 1 : 256); y += 3) {
        u64 b = base == 0 ? 0 : base == 1 ? ~0ull : 0x0123456789abcdefull; b &= ~(0xffull << (8 * i)); b |= (u64)x << (8 * i); if (i != j) { b &= ~(0xffull << (8 * j)); b |= (u64)y << (8 * j); } o64(b, off); if (i < 4) o32((u32)b, off); state(hashv(64, b, off)); }
    for (int k = 0; k < 64; k++) for (int l = 0; l < 64; l++) { o64(1ull << k | 1ull << l, off); o64(~(1ull << k | 1ull << l), off); o32((u32)(1ull << (k % 32) | 1ull << (l % 32)), off); }
    sample("loads and stores at offset %ld: all 16-bit values, byte pairs of 32- and 64-bit values", off);
})
MC_MAIN
