// C26: random generators under every pattern of hardware failures (scripted hardware).
#include "mc.h"
#include <immintrin.h>
#include <memory>
#include <gmlib/rng/rng.h>
#include <gmlib/rng/cstd_rng.h>
#include <gmlib/rng/std_rng.h>
#include <gmlib/rng/hardware_rng/rdrand32_rng.h>
#include <gmlib/rng/hardware_rng/rdrand64_rng.h>
#include <gmlib/rng/hardware_rng/rdseed32_rng.h>
#include <gmlib/rng/hardware_rng/rdseed64_rng.h>
using namespace mc;
// --- scripted hardware: fails[w] failures before word w is delivered, -1: fails for ever
static std::vector<int> script; static size_t word; static int pend; static long calls; static int want_which, want_bytes; static bool bad_insn, overrun; static u64 ctr;
static Bytes delivered;
static void hw_reset(const std::vector<int>& s) { script = s; word = 0; pend = s.empty() ? 0 : s[0]; calls = 0; bad_insn = overrun = false; delivered.clear(); }
extern "C" int verif_hw(int which, int bytes, void* out)
{
    calls++; if (which != want_which || bytes != want_bytes) bad_insn = true;
    if (calls > 100000) { fail("endless", "more than 100000 hardware calls"); }
    u64 v = mix(++ctr);
    if (word >= script.size()) overrun = true;
    else if (pend != 0) { if (pend > 0) pend--; v = 0xDEADDEADDEADDEADull; memcpy(out, &v, bytes); return 0; } // a failing read leaves junk
    else if (++word < script.size()) pend = script[word];
    memcpy(out, &v, bytes); delivered.insert(delivered.end(), (u8*)&v, (u8*)&v + bytes); return 1;
}
// --- scripted sources of the software generators
static u32 soft_ctr; static long soft_fail = -1, soft_calls;
static u32 soft_next() { soft_calls++; u32 b = soft_ctr; soft_ctr = (soft_ctr + 4) % 248; return (b + 1) | (b + 2) << 8 | (b + 3) << 16 | (b + 4) << 24; }
extern "C" int __wrap_rand() { return (int)(soft_next() & 0x7fffffff); }
unsigned int verif_getval(void*) asm("_ZNSt13random_device9_M_getvalEv");
unsigned int verif_getval(void*) { if (soft_fail >= 0 && soft_calls >= soft_fail) throw std::runtime_error("device failed"); return soft_next(); }

struct Gen { const char* name; int which, bytes, retries; std::function<rng::Rng*()> make; };
static std::vector<Gen> GN;
template <unsigned R> void reg()
{
    using namespace rng::hardware_rng;
    GN.push_back({"RdrandRng_64", 0, 8, (int)R, [] { return (rng::Rng*)new RdrandRng_64<R>; }}); GN.push_back({"RdrandRng_32", 0, 4, (int)R, [] { return (rng::Rng*)new RdrandRng_32<R>; }});
    GN.push_back({"RdseedRng_64", 1, 8, (int)R, [] { return (rng::Rng*)new RdseedRng_64<R>; }}); GN.push_back({"RdseedRng_32", 1, 4, (int)R, [] { return (rng::Rng*)new RdseedRng_32<R>; }});
}
SETUP([] { reg<0>(); reg<1>(); reg<2>(); reg<3>(); reg<10>(); using namespace rng::hardware_rng;
    GN.push_back({"RdrandRng_64 (default)", 0, 8, 10, [] { return (rng::Rng*)new RdrandRng_64<>; }}); GN.push_back({"RdrandRng_32 (default)", 0, 4, 10, [] { return (rng::Rng*)new RdrandRng_32<>; }}); GN.push_back({"RdseedRng_64 (default)", 1, 8, 10, [] { return (rng::Rng*)new RdseedRng_64<>; }}); GN.push_back({"RdseedRng_32 (default)", 1, 4, 10, [] { return (rng::Rng*)new RdseedRng_32<>; }}); })
static Tight& buf() { static Tight* t = new Tight(1 << 12); return *t; }
// one request under one failure script; returns true if it threw
static bool request(const Gen& g, rng::Rng& r, size_t len, const std::vector<int>& s)
{
    want_which = g.which; want_bytes = g.bytes; hw_reset(s); u8* p = buf().set(len, 0x6B); bool threw = false; u8 slack[1];
    (void)slack; try { r.gen(p, len); } catch (std::exception&) { threw = true; }
    trans(calls); trace(); if (!buf().ok()) fail("before", "bytes before the buffer written");
    bool must = false; long need = 0; for (int f : s) { if (f < 0 || f > g.retries) { must = true; need += 1 + g.retries; break; } need += 1 + f; }
    if (bad_insn) fail("instruction", "the wrong hardware instruction was used");
    if (threw != must) fail("verdict", must ? "no exception although the retries of a word were exhausted" : "exception although every word was delivered within its retries");
    if (overrun) fail("overrun", "more words drawn than the request needs");
    if (calls != need) fail("attempts", "%ld hardware reads, %ld expected", calls, need);
    if (!threw) { if (delivered.size() < len) fail("short", "only %zu bytes were delivered for %zu", delivered.size(), len); expect_eq("bytes", p, delivered.data(), len, "generated bytes against delivered bytes"); }
    return threw;
}
static std::string show(const std::vector<int>& s) { std::string r; for (int x : s) r += std::to_string(x) + " "; return r; }
SCENARIO("fault-patterns", [] { return (long)GN.size() * 41; }, [](long it) {
    const Gen& g = GN[it / 41]; size_t len = it % 41; size_t W = (len + g.bytes - 1) / g.bytes; std::unique_ptr<rng::Rng> r(g.make()); std::vector<int> s(W, 0);
    // per word: 0..R failures, R+1 (exhausted), -1 (for ever); full product while small, otherwise at most two faulty words
    std::vector<int> vals; for (int f = 0; f <= g.retries + 1; f++) vals.push_back(f); vals.push_back(-1);
    double prod = 1; for (size_t i = 0; i < W; i++) prod *= vals.size();
    long n = 0;
    auto go = [&](const std::vector<int>& x) { ctx("%s<%d>, %zu bytes, failures before each word: %s", g.name, g.retries, len, show(x).c_str()); at("pattern %ld", n++); request(g, *r, len, x); state(hashv(it, hash(x.data(), x.size() * sizeof(int)))); };
    if (prod <= (thorough() ? 300000 : 20000)) { std::vector<size_t> ix(W, 0); for (;;) { for (size_t i = 0; i < W; i++) s[i] = vals[ix[i]]; go(s); size_t i = 0; while (i < W && ++ix[i] == vals.size()) ix[i++] = 0; if (i == W) break; } }
    else { for (size_t i = 0; i < W; i++) for (size_t j = i; j < W; j++) for (int a : vals) for (int b : vals) { if (i == j && b != vals[0]) continue; std::fill(s.begin(), s.end(), 0); s[i] = a; if (i != j) s[j] = b; go(s); }
           for (int a : vals) { std::fill(s.begin(), s.end(), a); go(s); } }
    sample("%s<%d>: %ld failure patterns for %zu bytes", g.name, g.retries, n, len);
})
SCENARIO("histories", [] { return (long)GN.size(); }, [](long it) { // requests after failures, copies of the generator
    const Gen& g = GN[it]; int R = g.retries; std::unique_ptr<rng::Rng> r(g.make()); int b = g.bytes;
    std::vector<std::pair<size_t, std::vector<int>>> reqs = {{0, {}}, {1, {R}}, {(size_t)b, {R + 1}}, {(size_t)b + 1, {R, -1}}, {(size_t)2 * b - 1, {0, R}}, {(size_t)3 * b, {R, 0, R}}, {(size_t)2 * b + 2, {0, R, R + 1}}};
    int n = (int)reqs.size();
    for (int i = 0; i < n * n * n; i++) { std::unique_ptr<rng::Rng> q(g.make()); for (int k : {i / n / n, i / n % n, i % n}) { ctx("%s<%d>, history of requests %d,%d,%d", g.name, R, i / n / n, i / n % n, i % n); at("request %ld", k); request(g, *q, reqs[k].first, reqs[k].second); state(hashv(77, it, k, i)); } }
    want_which = g.which; want_bytes = b; // rand<T>()
    hw_reset(std::vector<int>(8, R)); u64 v = r->rand<u64>(); if (memcmp(&v, delivered.data(), 8)) fail("rand", "rand<uint64_t> is not the delivered bytes");
    hw_reset(std::vector<int>(8, 0)); u8 c = r->rand<u8>(); if (c != delivered[0]) fail("rand", "rand<uint8_t> is not the delivered byte");
    hw_reset(std::vector<int>(8, -1)); bool t = false; try { r->rand<u32>(); } catch (std::exception&) { t = true; } if (!t) fail("rand", "rand<T> swallows the failure");
    if (!r->name() || !*r->name()) fail("name", "empty name");
})
SCENARIO("large", [] { return (long)GN.size(); }, [](long it) {
    const Gen& g = GN[it]; std::unique_ptr<rng::Rng> r(g.make());
    for (size_t len = 0; len <= (thorough() ? 4096u : 700u); len++) { std::vector<int> s((len + g.bytes - 1) / g.bytes, 0); for (size_t i = 0; i < s.size(); i++) s[i] = (int)(i % (g.retries + 1)); ctx("%s<%d>", g.name, g.retries); at("%ld bytes", len); request(g, *r, len, s); if (!s.empty()) { s.back() = g.retries + 1; request(g, *r, len, s); } state(hashv(88, it, len)); }
})
SCENARIO("software", 2, [](long it) {
    std::unique_ptr<rng::Rng> r(it ? (rng::Rng*)new rng::StdRng : (rng::Rng*)new rng::CstdRng); ctx("%s", r->name());
    for (size_t len = 0; len <= 700; len++) {
        at("%ld bytes", len); soft_ctr = 0; soft_fail = -1; soft_calls = 0; u8* p = buf().set(len, 0); r->gen(p, len); trace(); trans(soft_calls); state(hashv(99, it, len));
        if (!buf().ok()) fail("before", "bytes before the buffer written"); for (size_t i = 0; i < len; i++) if (!p[i]) fail("unwritten", "byte %zu of %zu not written", i, len);
        if (len <= 60) { std::set<u8> u(p, p + len); if (u.size() != len) fail("reused", "the same random byte is used twice"); }
        // a failing source must be reported, for every call that can fail
        if (it && len <= 130) { long total = soft_calls; for (long k = 0; k < total; k++) { soft_calls = 0; soft_fail = k; bool t = false; try { r->gen(buf().set(len), len); } catch (std::exception&) { t = true; } if (!t) fail("swallowed", "failure of the random device at draw %ld swallowed", k); trace(); } soft_fail = -1; }
    }
    sample("%s: every length 0..700", r->name());
})
// many requests on one generator: failures that were overcome must not add up
SCENARIO("many", [] { return (long)GN.size() * 3; }, [](long it) {
    const Gen& g = GN[it / 3]; int pat = (int)(it % 3), R = g.retries; const int N = thorough() ? 140000 : 66000; std::unique_ptr<rng::Rng> r(g.make()); size_t b = g.bytes; ctx("%s<%d>, many requests, pattern %d", g.name, R, pat);
    for (int j = 0; j < N; j++) { if (j % 500 == 0) { at("request %ld", j); tick(); } if (pat == 0) request(g, *r, j % 3 ? b : 0 + j % 4, std::vector<int>(j % 3 || j % 4 ? 1 : 0, R)); else if (pat == 1) { if (j % 1000 == 999) request(g, *r, 2 * b, {R, R + 1}); else request(g, *r, 2 * b + 1, {j % (R + 1), 0, R}); } else { if (j % 1000 == 999) request(g, *r, b, {R}); else request(g, *r, b, {R + 1}); } }
    state(hashv(0x4d, it));
})
MC_MAIN
