// C30: transcripts of every script of ops.h; run.py compares them between configurations.
#include <fcntl.h>
#include <malloc.h>
#include "opsctx.h"
using namespace mc;
struct It { int op; long from, to, base; };
// one call over very long inputs (a megabyte repeated): name, octets, slow in the portable builds
struct Lg { const char* name; size_t n; int cost; void (*fn)(opsctx::Ctx&, size_t); };
static const u8* rep(int k) { static Repeat* r[3] = {}; if (!r[k]) r[k] = new Repeat(1 << 20, 4100, 900 + k); return r[k]->p; }
template <class H> static void lhash(opsctx::Ctx& c, size_t n) { u8 d[32] = {0}; H h; if constexpr (std::is_same<H, ghash::GHash>::value) h.set_key(rep(0) + 5); h.update(rep(0) + 1, n % 4 ? 0 : 16); ops::guarded(c, [&] { h.update(rep(0) + 3, n); h.do_final(d); }); c.emit(d, 32); }
static void lmac(opsctx::Ctx& c, size_t n) { u8 d[32] = {0}; ops::guarded(c, [&] { hash_lib::HMac<sm3::SM3> h(rep(0) + 9, n); h.do_final(d, rep(0), 77); }); c.emit(d, 32); }
static void lxor(opsctx::Ctx& c, size_t n) { u8* o = (u8*)rep(2); memcpy(o, rep(1), 1 << 20); memory_utils::memxor_n(o, rep(0), rep(1) + (1 << 20), n); c.emit(o, 1 << 20); }
template <class C> static void lblk(opsctx::Ctx& c, size_t n) { u8* o = (u8*)rep(2); C e, d; e.set_key(rep(0) + 7, C::ENCRYPTION); d.set_key(rep(0) + 7, C::DECRYPTION); e.encrypt_blocks(o, rep(0), n / 16); c.emit(o, 1 << 20); d.decrypt_blocks(o, rep(1), n / 16); c.emit(o, 1 << 20); }
static const Lg LONG[] = {{"SM3, one long call", (1u << 29) + 64, 0, lhash<sm3::SM3>}, {"SM3, one long call", (1u << 28) + 1, 0, lhash<sm3::SM3>}, {"GHASH, one long call", (1u << 29) + 32, 1, lhash<ghash::GHash>}, {"HMAC, long key", (1u << 29) + 65, 0, lmac}, {"memxor, one long call", 0x100000000 + 4099, 0, lxor}, {"memxor, one long call", 0x80000000u + 61, 0, lxor}, {"AES-128, many blocks", (1u << 28) + 16 * 19, 1, lblk<aes::AES128>}, {"AES-256, many blocks", (1u << 28) + 16 * 3, 1, lblk<aes::AES256>}, {"SM4, many blocks", (1u << 28) + 16 * 35, 1, lblk<sm4::SM4>},
    {"SM3, one long call", 0x80000000u + 5, 2, lhash<sm3::SM3>}, {"SM3, one long call", 0x100000000 + 64, 2, lhash<sm3::SM3>}, {"GHASH, one long call", 0x80000000u + 16, 2, lhash<ghash::GHash>}, {"AES-128, many blocks", 0x80000000u + 16 * 5, 2, lblk<aes::AES128>}, {"SM4, many blocks", 0x40000000u + 16 * 5, 2, lblk<sm4::SM4>}};
static long longs; static bool slow; // slow: unoptimised build
static std::vector<It> items; static u64* dig; static long total;
SETUP([] {
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
    auto& a = ops::all(); for (int i = 0; i < (int)a.size(); i++) { bool li = a[i].weight == ops::LIGHT; long n = (thorough() ? a[i].thorough : a[i].quick) * (li ? 3 : 2), st = li ? 50 : 1; const char* cut = getenv("MC_OPS_DIV"); if (cut) n = n / atol(cut) + 1; for (long v = 0; v < n; v += st) items.push_back({i, v, std::min(n, v + st), total + v}); total += n; }
    const char *w = getenv("MC_WORK"), *u = getenv("MC_UNIT"); if (!w || !u) return; std::string f = std::string(w) + "/" + u + ".dig"; FILE* names = fopen((f + ".txt").c_str(), "w"); for (auto& t : items) fprintf(names, "%ld\t%ld\t%ld\t%s\n", t.base, t.from, t.to, a[t.op].name); slow = strlen(u) > 3 && !strcmp(u + strlen(u) - 3, "-O0"); for (auto& l : LONG) { if (l.cost < 2 || thorough()) fprintf(names, "%ld\t0\t1\t%s, %zu octets\n", total + longs, l.name, l.n); longs++; } fclose(names);
    int fd = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); if (fd < 0 || ftruncate(fd, (total + longs) * 8)) { perror("digest file"); exit(3); } dig = (u64*)mmap(nullptr, (total + longs) * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
})
static void __attribute__((noinline)) scrub(u8 pat) { volatile u8 b[48 * 1024]; for (size_t i = 0; i < sizeof b; i++) b[i] = pat; }
static u64 run(int op, long v, u8 pat, Bytes* log)
{
    scrub(pat); mallopt(M_PERTURB, pat); std::vector<size_t> ex; opsctx::Ctx c(false, &ex, true); c.keep = log; auto& o = ops::all()[op]; ctx("%s, variant %ld, unused memory filled with 0x%02x", o.name, v, pat);
    try { o.fn(c, v); } catch (Abort&) { if (c.bad) fail("length", "%s", c.bad); throw; } trans(); eval(); if (log) *log = c.log; return c.dig;
}
SCENARIO("transcript", [] { return (long)items.size(); }, [](long k) {
    for (long v = items[k].from; v < items[k].to; v++) { int op = items[k].op; u64 a = run(op, v, 0x00, nullptr), b = run(op, v, 0x5A, nullptr); if (a != b) { Bytes x, y; run(op, v, 0x00, &x); run(op, v, 0x5A, &y); size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) i++; fail("depends on unused memory", "transcripts differ from octet %zu of %zu", i, x.size()); }
        trace(); state(hashv(op, v, a)); if (dig) dig[items[k].base + v - items[k].from] = a | 1; if (v < 1) sample("%s variant %ld: transcript digest %016lx", ops::all()[op].name, v, a); }
})
SCENARIO("long calls", sizeof LONG / sizeof *LONG, [](long k) {
    const Lg& l = LONG[k]; if ((l.cost == 2 && !thorough()) || (slow && l.cost)) return; at("%ld octets", l.n); ctx("%s, %zu octets", l.name, l.n); std::vector<size_t> ex; opsctx::Ctx c(false, &ex, true); l.fn(c, l.n); trans(); eval(); trace(); state(hashv(0x30, k, c.dig)); if (dig) dig[total + k] = c.dig | 1; })
MC_MAIN
