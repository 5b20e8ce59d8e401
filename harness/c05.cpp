// C05: streaming hash updates. Objects behind one interface: toy hashes of many block
// sizes, SM3 and GHASH; all chunkings, plus reset/copy histories.
#include <memory>
#include "toyhash.h"
#include "longhash.h"
#include "ref_sm3.h"
#include "ref_gcm.h"
#include <gmlib/sm3/sm3.h>
#include <gmlib/ghash/ghash.h>
using namespace mc; using namespace toy;
struct IHash { virtual ~IHash() = default; virtual IHash* clone() const = 0; virtual void reset() = 0; virtual void update(const u8*, size_t) = 0; virtual void fin(u8*, const u8*, size_t) = 0; virtual void fin0(u8*) = 0; virtual const char* err() { return nullptr; } };
template <class H> struct HImpl : IHash {
    H h; IHash* clone() const override { return new HImpl(*this); }
    void reset() override { h.reset(); } void update(const u8* p, size_t n) override { h.update(p, n); }
    void fin(u8* d, const u8* p, size_t n) override { h.do_final(d, p, n); } void fin0(u8* d) override { h.do_final(d); }
    const char* err() override { if constexpr (requires_err<H>(0)) return h.err; return nullptr; }
    template <class T> static constexpr auto requires_err(int) -> decltype(std::declval<T>().err, true) { return true; }
    template <class T> static constexpr bool requires_err(...) { return false; }
};
struct HK { std::string name; size_t bs, ds; std::function<IHash*()> make; std::function<Bytes(const Bytes&)> ref; int lc; size_t unit; int tag; };
static std::vector<HK> H;
template <size_t BS, size_t DS> void toyk(int lq, int lt) { H.push_back({"Toy<" + std::to_string(BS) + "," + std::to_string(DS) + ">", BS, DS, [] { return (IHash*)new HImpl<ToyHash<BS, DS>>(); }, toy_hash<DS>, thorough() ? lt : lq, 1, (int)H.size()}); }
SETUP([] {
    if (!refsm3::self_test()) { fprintf(stderr, "SM3 reference broken\n"); exit(3); }
    toyk<1, 1>(14, 17); toyk<2, 3>(16, 19); toyk<3, 2>(17, 20); toyk<4, 4>(17, 20); toyk<5, 4>(17, 20); toyk<7, 4>(17, 20); toyk<8, 8>(17, 20); toyk<16, 8>(14, 18); toyk<64, 32>(0, 0); toyk<128, 64>(0, 0); toyk<136, 32>(0, 0); toyk<72, 16>(0, 0);
    H.push_back({"SM3", 64, 32, [] { return (IHash*)new HImpl<sm3::SM3>(); }, [](const Bytes& m) { return refsm3::sm3(m); }, 0, 1, (int)H.size()});
    H.push_back({"GHASH", 16, 16, [] { auto* h = new HImpl<ghash::GHash>(); u8 k[16]; fill(k, 16, 5); h->h.set_key(k); return (IHash*)h; }, [](const Bytes& m) { u8 k[16]; fill(k, 16, 5); refgcm::GH g(k); g.padded(m.data(), m.size()); Bytes d(16); refgcm::store(d.data(), g.y); return d; }, 0, 16, (int)H.size()});
})
static Tight& buf() { static Tight* t = new Tight(1 << 14); return *t; }
struct Exp {
    const HK& k; Bytes m; std::map<size_t, Bytes> cache;
    Exp(const HK& k_, size_t n) : k(k_), m(filled(n, 17 + k_.tag)) {}
    const Bytes& want(size_t L) { auto it = cache.find(L); if (it != cache.end()) return it->second; return cache[L] = k.ref(Bytes(m.begin(), m.begin() + L)); }
    void done(IHash& h, const u8* d, size_t L) { trace(); if (h.err()) fail("partial", "%s", h.err()); expect_eq("digest", d, want(L).data(), k.ds, "digest"); }
    void dfs(const IHash& h, size_t c, size_t L, const u8* p)
    {
        for (size_t n = 1; n <= L - c; n++) {
            at("length %ld, call at %ld with %ld bytes", L, c, n); std::unique_ptr<IHash> b(h.clone()); u8 d[128];
            state(hashv(k.tag, c + n, L - c == n));
            if (c + n < L) { b->update(p + c, n); trans(); dfs(*b, c + n, L, p); continue; }
            b->fin(d, p + c, n); trans(); done(*b, d, L);
            b.reset(h.clone()); b->update(p + c, n); b->fin0(d); trans(2); done(*b, d, L);
        }
    }
    void list(const std::vector<size_t>& c, bool fd)
    {
        size_t L = 0; for (size_t x : c) L += x; if (L % k.unit) return;
        u8* p = buf().set(Bytes(m.begin(), m.begin() + L)); std::unique_ptr<IHash> h(k.make()); size_t o = 0; u8 d[128];
        at("chunks(%ld): %ld,%ld,%ld ... total %ld, last to final %ld", c.size(), c.size() ? c[0] : 0, c.size() > 1 ? c[1] : 0, c.size() > 2 ? c[2] : 0, L, fd);
        for (size_t i = 0; i < c.size(); i++) { if (fd && i + 1 == c.size()) h->fin(d, p + o, c[i]); else h->update(p + o, c[i]); o += c[i]; trans(); state(hashv(k.tag, o, i + 1 == c.size() && fd)); }
        if (!fd || c.empty()) { h->fin0(d); trans(); }
        done(*h, d, L);
    }
};
SCENARIO("compositions", [] { return (long)H.size(); }, [](long i) {
    const HK& k = H[i]; ctx("%s", k.name.c_str()); Exp e(k, 64);
    for (int L = 1; L <= k.lc; L++) { std::unique_ptr<IHash> h(k.make()); e.dfs(*h, 0, L, buf().set(Bytes(e.m.begin(), e.m.begin() + L))); }
    if (k.lc) sample("%s: all chunkings of messages up to %d bytes", k.name.c_str(), k.lc);
})
SCENARIO("cuts", [] { return (long)H.size() * 4; }, [](long it) {
    const HK& k = H[it / 4]; int part = it % 4; ctx("%s", k.name.c_str()); Exp e(k, 2048); size_t bs = k.bs, M = 4 * bs + 5;
    if (part == 0) { e.list({}, false); for (size_t L = 0; L <= M + 64; L++) for (int f = 0; f < 2; f++) e.list({L}, f); for (size_t L = 0; L <= M; L++) for (size_t a = 0; a <= L; a++) { e.list({a, L - a}, a & 1); if (thorough()) e.list({a, L - a}, ~a & 1); } }
    else {
        auto near = [&](size_t x) { size_t m = x % bs; return m <= 1 || m + 1 == bs; };
        size_t L = part == 1 ? 3 * bs : part == 2 ? 2 * bs + bs / 2 : 4 * bs; if (L % k.unit) L -= L % k.unit;
        for (size_t a = 0; a <= L; a++) for (size_t b = 0; a + b <= L; b++) { if (L > 64 && !thorough() && !near(a) && !near(a + b)) continue; e.list({a, b, L - a - b}, b & 1); }
        for (size_t q = 1; q <= 2 * bs + 2; q++) { std::vector<size_t> v; for (size_t x = 0; x < L; x += q) v.push_back(std::min(q, L - x)); e.list(v, true); e.list(v, false); }
        // four chunks near the boundaries, including empty ones
        size_t al[] = {0, 1, bs - 1, bs, bs + 1, 2 * bs}; for (size_t a : al) for (size_t b : al) for (size_t c : al) for (size_t d : al) { size_t t = (a + b + c + d) % k.unit; e.list({a, b, c, d, t ? k.unit - t : 0}, (a ^ b) & 1); }
    }
    sample("%s: cut family %d", k.name.c_str(), part);
})
// histories with reset, abandoned messages, copies
SCENARIO("histories", [] { return (long)H.size(); }, [](long i) {
    const HK& k = H[i]; int D = thorough() ? 7 : 6; ctx("%s histories depth %d", k.name.c_str(), D); Exp e(k, 2048);
    size_t U[] = {1, k.bs - 1, k.bs, k.bs + 1}; const u8* p = e.m.data();
    std::vector<std::string> hist;
    std::function<void(const IHash&, size_t, bool, int)> rec = [&](const IHash& h, size_t n, bool fin, int d) {
        for (int op = 0; op < 7; op++) {
            if (op >= 1 && fin) break; // after final only reset is defined
            std::unique_ptr<IHash> b(h.clone()); size_t nn = n; bool ff = fin; u8 dg[128]; tick();
            hist.push_back(op == 0 ? "reset" : op <= 4 ? "update(" + std::to_string(U[op - 1]) + ")" : op == 5 ? "final" : "final(1)");
            trans();
            if (op == 0) { b->reset(); nn = 0; ff = false; }
            else if (op <= 4) { if (!U[op - 1]) { hist.pop_back(); continue; } b->update(p + n, U[op - 1]); nn += U[op - 1]; }
            else { nn += op == 6; if (nn % k.unit) { hist.pop_back(); continue; } if (op == 5) b->fin0(dg); else b->fin(dg, p + n, 1); trace(); ff = true;
                if (memcmp(dg, e.want(nn).data(), k.ds)) { std::string s; for (auto& x : hist) s += x + "; "; fail("history", "wrong digest of %zu bytes after: %s", nn, s.c_str()); } }
            state(hashv(k.tag, nn, ff, 77));
            if (d + 1 < D) rec(*b, nn, ff, d + 1);
            hist.pop_back();
        }
    };
    std::unique_ptr<IHash> h(k.make()); rec(*h, 0, false, 0); sample("%s: all histories of %d operations", k.name.c_str(), D);
})
// one call of any length, up to beyond 2^32 octets, with 0..BS-1 octets waiting and a tail after it
static const int LSTART[] = {0, 1, -1, 2, -2}; // octets before the long call
template <size_t BS> static void longrun(int k, int part)
{
    const u8* p = lng::data(); std::vector<long> dl = {0, 1, -1, (long)BS, -(long)BS, (long)BS - 1, 1 - (long)BS, (long)BS / 2, -(long)BS / 2, 64, -64, (long)BS + 1}; ctx("block size %zu", BS);
    for (long d : dl) for (int st : LSTART) {
        size_t pre = st < 0 ? BS + st : st, n = ((size_t)1 << k) + d; if (pre > BS) continue; at("%ld octets after %ld waiting", n, pre); tick();
        for (size_t post : {(size_t)0, (size_t)1, BS}) { if (k > 24 && post != (size_t)((k + pre) % 2)) continue; lng::SparseHash<32, BS> h; u8 dg[32]; h.update(p + 5, pre); h.update(p + 7777 + part, n); h.do_final(dg, p + 100, post); trans(3); trace(); state(hashv(0x10, BS, n, pre, post)); expect_eq("long", dg, lng::eval(32, {{p + 5, pre}, {p + 7777 + part, n}, {p + 100, post}}).data(), 32, "digest of a long message"); }
        { lng::SparseHash<32, BS> h; u8 dg[32]; h.update(p + 5, pre); h.do_final(dg, p + 9, n); trans(2); trace(); expect_eq("long", dg, lng::eval(32, {{p + 5, pre}, {p + 9, n}}).data(), 32, "digest of a long last part"); if (n % 3 == 0) { h.reset(); h.update(p + 9, n); h.update(p + 11, n); h.do_final(dg); trans(2); trace(); expect_eq("long", dg, lng::eval(32, {{p + 9, n}, {p + 11, n}}).data(), 32, "digest of two long parts"); } }
    }
}
SCENARIO("long calls", 7 * 25, [](long it) { int k = 8 + (int)(it / 7); switch (it % 7) { case 0: longrun<1>(k, 0); break; case 1: longrun<3>(k, 1); break; case 2: longrun<16>(k, 2); break; case 3: longrun<64>(k, 3); break; case 4: longrun<72>(k, 4); break; case 5: longrun<128>(k, 5); break; default: longrun<136>(k, 6); } })
// one message in more than 2^16 calls; more than 2^16 messages on one object
SCENARIO("many", [] { return (long)H.size() * 2; }, [](long it) {
    const HK& k = H[it / 2]; const size_t N = thorough() ? 140000 : 66000; u8 dg[128];
    if (it % 2) { ctx("%s: many calls", k.name.c_str()); for (std::vector<size_t> p : {std::vector<size_t>{1}, {0, 1, 0}, {k.bs, 0}, {k.bs + 1, 0, k.bs - 1, 2}, {0}}) {
        size_t L = 0; for (size_t j = 0; j < N; j++) L += p[j % p.size()]; size_t tail = (k.unit - L % k.unit) % k.unit; at("%ld calls cycling over %ld lengths, the first %ld", N, p.size(), p[0]); tick(); Bytes m = filled(L + tail, 3); Bytes want = k.ref(m); tick(); std::unique_ptr<IHash> h(k.make()); size_t o = 0; for (size_t j = 0; j < N; j++) { h->update(m.data() + o, p[j % p.size()]); o += p[j % p.size()]; trans(); } h->fin(dg, m.data() + o, tail); trans(); trace(); if (h->err()) fail("partial", "%s", h->err()); expect_eq("digest", dg, want.data(), k.ds, "digest of a message in many calls"); state(hashv(0x6d63, k.tag, p.size(), p[0])); } }
    else { Exp e(k, 4 * k.bs + 64); ctx("%s: many messages on one object", k.name.c_str()); for (int pat = 0; pat < 3; pat++) { std::unique_ptr<IHash> h(k.make()); for (size_t j = 0; j < N; j++) {
        if (j % 500 == 0) { at("message %ld, pattern %ld", j, pat); tick(); } h->reset(); size_t a = j % 5, b = pat == 1 ? k.bs - a % k.bs : j % (k.bs + 2); b += (k.unit - (a + b) % k.unit) % k.unit; h->update(e.m.data(), a); trans(2); if (pat == 2 && j % 4 != 1) { h->update(e.m.data() + a, b); continue; } h->fin(dg, e.m.data() + a, b); trans(); trace(); if (memcmp(dg, e.want(a + b).data(), k.ds)) fail("many digest", "wrong digest of %zu octets in message %zu on one object", a + b, j); } state(hashv(0x4d4d, k.tag, pat)); } }
})
MC_MAIN
