// C26: the operating-system generators under every pattern of device failures (scripted Windows devices).
#include <Windows.h>
#include "mc.h"
#include <gmlib/rng/os_rng/bcrypt_rng.h>
#include <gmlib/rng/os_rng/wincrypt_rng.h>
#include <memory>
#include <algorithm>
using namespace mc;
typedef std::pair<u64, u64> Range;
// the device: script[i] = result of its i-th call (0 success, otherwise a kind of failure), success afterwards
static std::vector<int> script; static long calls, failed; static u8 *lo, *hi; static bool outside, wrong, touch; static std::vector<Range> got; static u64 ctr; static Bytes shadow; static HCRYPTPROV handle; static long open_, acquired; static int acq_fail, okval;
static void reset(const std::vector<int>& s, u8* p, u64 n, bool t) { script = s; calls = failed = 0; lo = p; hi = p + n; outside = wrong = false; touch = t; got.clear(); shadow.assign(t ? n : 0, 0); }
static int device(u8* p, u64 n)
{
    if (++calls > 100000) fail("endless", "more than 100000 device calls");
    int r = calls <= (long)script.size() ? script[calls - 1] : !script.empty() && script.back() == 99 ? 99 : 0;
    bool in = p >= lo && p <= hi && n <= (u64)(hi - p); if (!in) { outside = true; return r; }
    if (r) { failed++; if (touch) for (u64 i = 0; i < n && i < 3; i++) p[i] = 0xDE; return r; } // a failing device leaves junk
    got.push_back({(u64)(p - lo), n}); if (touch) for (u64 i = 0; i < n; i++) shadow[p - lo + i] = p[i] = (u8)(mix(++ctr) | 1);
    return 0;
}
extern "C" NTSTATUS BCryptGenRandom(BCRYPT_ALG_HANDLE h, PUCHAR p, ULONG n, ULONG f) { static const NTSTATUS bad[] = {0, (NTSTATUS)0xC000000D, (NTSTATUS)0xC0000008, (NTSTATUS)0x80000000, -1}; if (h || f != BCRYPT_USE_SYSTEM_PREFERRED_RNG) wrong = true; int r = device(p, n); return r == 99 ? bad[1] : bad[r % 5]; }
extern "C" BOOL CryptAcquireContextA(HCRYPTPROV* h, LPCSTR, LPCSTR, DWORD, DWORD) { acquired++; if (acq_fail) return FALSE; open_++; *h = handle = 0x1000 + acquired * 16; return okval; }
extern "C" BOOL CryptReleaseContext(HCRYPTPROV h, DWORD) { if (h != handle || !open_) wrong = true; else open_--; return okval; }
extern "C" BOOL CryptGenRandom(HCRYPTPROV h, DWORD n, BYTE* p) { if (h != handle || !open_) wrong = true; return device(p, n) ? FALSE : okval; }
static const char* NAME[2] = {"BcryptRng", "WincryptRng"};
static rng::Rng* make(int k) { return k ? (rng::Rng*)new rng::os_rng::WincryptRng : (rng::Rng*)new rng::os_rng::BcryptRng; }
// every byte of the request must come from a successful device call, and no device call may reach outside
static bool judge(const char* what, u64 len, bool threw, bool forever)
{
    trans(calls); trace(); if (outside) fail("outside", "%s: the device was handed memory outside the request", what); if (wrong) fail("handle", "%s: the device was used through a wrong handle or mode", what);
    std::sort(got.begin(), got.end()); u64 at = 0; for (auto& r : got) { if (r.first > at) break; at = std::max(at, r.first + r.second); }
    if (!threw && at < len) fail("unfilled", "%s: returned although only the first %llu of %llu bytes were delivered", what, (unsigned long long)at, (unsigned long long)len);
    if (threw && !failed) fail("verdict", "%s: exception although no device call failed", what); if (!threw && forever && len) fail("verdict", "%s: no exception although the device fails", what);
    return threw;
}
static u8* big() { static u8* p = (u8*)mmap(nullptr, (size_t)5 << 32, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(90); } return p; }
static void request(rng::Rng& r, u64 len, const std::vector<int>& s, bool huge, const char* what)
{
    static Tight t(1 << 13); u8* p = huge ? big() + 4096 : t.set(len, 0x6B); reset(s, p, len, !huge); bool threw = false; try { r.gen(p, len); } catch (std::exception&) { threw = true; }
    if (!huge && !t.ok()) fail("before", "%s: bytes before the buffer written", what); judge(what, len, threw, s == std::vector<int>{99});
    if (!huge && !threw) expect_eq("bytes", p, shadow.data(), len, "generated bytes against delivered bytes");
}
SCENARIO("small", 2 * 200, [](long it) { // every length, the k-th call failing in each way, failing for ever
    int k = it & 1; u64 len = it / 2; if (it / 2 >= 100) len = 100 + (it / 2 - 100) * 37; ctx("%s, %llu bytes", NAME[k], (unsigned long long)len); okval = TRUE;
    std::unique_ptr<rng::Rng> r(make(k)); if (!r->name() || !*r->name()) fail("name", "empty name");
    for (int ok : {1, 2, -1}) { okval = ok; at("success value %ld", ok); state(hashv(1, it, ok + 5)); request(*r, len, {}, false, "no failure"); }
    okval = TRUE; for (int v : {1, 2, 3, 4, 99}) for (int pos = 0; pos < 3; pos++) { std::vector<int> s(pos, 0); s.push_back(v); at("failure %ld at call %ld", v, pos); state(hashv(2, it, v, pos)); request(*r, len, s, false, "failure"); request(*r, len, {}, false, "after the failure"); }
})
SCENARIO("large", [] { return 2 * 30L; }, [](long it) { // lengths around the largest single device request: only the requests are observed
    static const long long d[] = {-2, -1, 0, 1, 2}; int k = it & 1; long i = it / 2; u64 unit = i < 15 ? 0xFFFFFFFFull : 0x100000000ull, len = unit * (1 + i % 3) + d[i / 3 % 5]; ctx("%s, %llu bytes", NAME[k], (unsigned long long)len); okval = TRUE; std::unique_ptr<rng::Rng> r(make(k));
    at("no failure"); state(hashv(3, it)); request(*r, len, {}, true, "no failure"); long n = calls; for (long pos = 0; pos < n && pos < 12; pos++) { std::vector<int> s(pos, 0); s.push_back(1); at("call %ld fails", pos); state(hashv(3, it, pos)); request(*r, len, s, true, "one failure"); s.back() = 99; request(*r, len, s, true, "failure from there"); }
    sample("%s: %llu bytes in %ld device calls, each failing", NAME[k], (unsigned long long)len, n);
})
SCENARIO("life", 1, [](long) { // acquisition and release
    for (int ok : {1, 2, -1}) for (int fl = 0; fl < 2; fl++) { okval = ok; acq_fail = fl; open_ = 0; wrong = false; at("acquisition fails: %ld", fl); bool threw = false; state(hashv(4, ok + 5, fl)); try { rng::os_rng::WincryptRng r; u8 b[8]; reset({}, b, 8, true); if (!fl) r.gen(b, 8); } catch (std::exception&) { threw = true; } trace();
        if (threw != (fl == 1)) fail("verdict", fl ? "no exception although no device could be acquired" : "exception although the device was acquired"); if (open_ || wrong) fail("handle", "the device handle is not released exactly once"); acq_fail = 0; }
})
MC_MAIN
