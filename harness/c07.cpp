// C07: HMAC against RFC 2104 over toy hashes and SM3.
#include <memory>
#include "toyhash.h"
#include "longhash.h"
#include "ref_sm3.h"
#include <gmlib/hash_lib/hmac.h>
#include <gmlib/sm3/sm3.h>
using namespace mc; using namespace toy;
struct IMac { virtual ~IMac() = default; virtual IMac* clone() const = 0; virtual void construct(const u8*, size_t) = 0; virtual void key(const u8*, size_t) = 0; virtual void update(const u8*, size_t) = 0; virtual void fin(u8*, const u8*, size_t) = 0; virtual void fin0(u8*) = 0; };
template <class Hs> struct MI : IMac {
    hash_lib::HMac<Hs> m; IMac* clone() const override { return new MI(*this); }
    void construct(const u8* k, size_t n) override { m = hash_lib::HMac<Hs>(k, n); } void key(const u8* k, size_t n) override { m.set_key(k, n); }
    void update(const u8* p, size_t n) override { m.update(p, n); } void fin(u8* d, const u8* p, size_t n) override { m.do_final(d, p, n); } void fin0(u8* d) override { m.do_final(d); }
};
struct MK { std::string name; size_t bs, ds; std::function<IMac*()> make; std::function<Bytes(const Bytes&)> h; int tag; };
static std::vector<MK> M;
template <size_t BS, size_t DS> void toyk() { M.push_back({"Toy<" + std::to_string(BS) + "," + std::to_string(DS) + ">", BS, DS, [] { return (IMac*)new MI<ToyHash<BS, DS>>(); }, toy_hash<DS>, (int)M.size()}); }
static Bytes rfc2104(const MK& k, Bytes key, const Bytes& msg)
{
    if (key.size() > k.bs) key = k.h(key);
    key.resize(k.bs, 0); Bytes i = key, o = key; for (auto& b : i) b ^= 0x36; for (auto& b : o) b ^= 0x5c;
    i.insert(i.end(), msg.begin(), msg.end()); Bytes d = k.h(i); o.insert(o.end(), d.begin(), d.end()); return k.h(o);
}
SETUP([] {
    toyk<8, 4>(); toyk<8, 8>(); toyk<4, 4>(); toyk<16, 5>(); toyk<2, 1>(); toyk<64, 32>(); toyk<128, 64>(); toyk<72, 28>(); toyk<136, 32>(); toyk<5, 3>();
    M.push_back({"SM3", 64, 32, [] { return (IMac*)new MI<sm3::SM3>(); }, [](const Bytes& m) { return refsm3::sm3(m); }, (int)M.size()});
})
struct Bufs { Tight k{4096}, m{4096}, d{256}; }; static Bufs& bf() { static Bufs* b = new Bufs; return *b; }
static void run(const MK& k, IMac& m, const Bytes& key, const Bytes& msg, const std::vector<size_t>& ch, bool fd, int how)
{
    u8* kp = bf().k.set(key); u8* mp = bf().m.set(msg); u8* d = bf().d.set(k.ds);
    if (how) m.construct(kp, key.size()); else m.key(kp, key.size());
    memset(kp, 0, key.size()); // the key buffer belongs to the caller again
    size_t o = 0; trans();
    for (size_t i = 0; i < ch.size(); i++) { if (fd && i + 1 == ch.size()) m.fin(d, mp + o, ch[i]); else m.update(mp + o, ch[i]); o += ch[i]; trans(); }
    if (!fd || ch.empty()) { m.fin0(d); trans(); }
    trace(); state(hashv(k.tag, key.size(), msg.size(), ch.size(), ch.empty() ? 0 : ch[0], fd));
    expect_eq("mac", d, rfc2104(k, key, msg).data(), k.ds, "MAC"); if (!bf().d.ok()) fail("canary", "bytes in front of the MAC overwritten");
}
SCENARIO("shapes", [] { return (long)M.size() * 4; }, [](long it) {
    const MK& k = M[it / 4]; int q = it % 4; ctx("HMAC %s", k.name.c_str()); std::unique_ptr<IMac> m(k.make());
    for (size_t kl = q; kl <= 2 * k.bs + 6; kl += 4) {
        Bytes key = filled(kl, kl + 1);
        for (size_t L = 0; L <= 2 * k.bs + 3; L++) { at("key %ld bytes, message %ld bytes", kl, L); Bytes msg = filled(L, L + 7); run(k, *m, key, msg, {L}, true, 0); if (L % 8 == 1) { run(k, *m, key, msg, {L}, false, 1); run(k, *m, key, msg, {L / 2, L - L / 2}, L & 2, 0); run(k, *m, key, msg, {L / 3, 0, L / 3, L - 2 * (L / 3)}, L & 4, 1); } }
        for (int v : {0, 0xFF, 0x36, 0x5c}) { at("key of %ld bytes %ld", kl, v); run(k, *m, Bytes(kl, v), filled(9, 1), {9}, true, 0); }
    }
    sample("HMAC %s: key lengths 0..%zu x message lengths 0..%zu", k.name.c_str(), 2 * k.bs + 6, 2 * k.bs + 3);
})
SCENARIO("key bytes", [] { return (long)M.size(); }, [](long it) {
    const MK& k = M[it]; ctx("HMAC %s", k.name.c_str()); std::unique_ptr<IMac> m(k.make()); Bytes msg = filled(5, 3);
    for (size_t p = 0; p < k.bs; p++) for (int v = 0; v < 256; v += (thorough() || k.bs <= 64 ? 1 : 5)) { at("key byte %ld = %ld", p, v); Bytes key(k.bs, 0); key[p] = v; run(k, *m, key, msg, {5}, true, 0); }
})
SCENARIO("chunks", [] { return (long)M.size(); }, [](long it) {
    const MK& k = M[it]; ctx("HMAC %s", k.name.c_str()); std::unique_ptr<IMac> m(k.make());
    for (size_t kl : {k.bs - 1, k.bs, k.bs + 1}) { Bytes key = filled(kl, 1); size_t L = 2 * k.bs + 1; Bytes msg = filled(L, 2);
        auto near = [&](size_t x) { size_t r = x % k.bs; return r <= 1 || r + 1 == k.bs; };
        for (size_t a = 0; a <= L; a++) for (size_t b = 0; a + b <= L; b++) { if (L > 40 && !(near(a) && near(a + b))) continue; at("key %ld, chunks %ld,%ld,%ld", kl, a, b, L - a - b); run(k, *m, key, msg, {a, b, L - a - b}, a & 1, b & 1); } }
})
// histories: set_key with short/block/long keys, update, final, abandon, copy
SCENARIO("histories", [] { return (long)M.size() * 4; }, [](long it) {
    const MK& k = M[it / 4]; int first = it % 4, D = k.bs <= 16 ? (thorough() ? 7 : 6) : 5; ctx("HMAC %s histories of %d calls", k.name.c_str(), D);
    Bytes keys[4] = {filled(1, 1), filled(k.bs, 2), filled(k.bs + 1, 3), filled(3 * k.bs, 4)}, msg = filled(8 * k.bs + 16, 5); std::map<u64, Bytes> cache;
    auto want = [&](int ky, size_t n) -> const Bytes& { u64 h = ky * 100000 + n; auto i = cache.find(h); if (i != cache.end()) return i->second; return cache[h] = rfc2104(k, keys[ky], Bytes(msg.begin(), msg.begin() + n)); };
    std::vector<std::string> hist;
    std::function<void(const IMac&, int, size_t, int)> rec = [&](const IMac& m, int ky, size_t n, int d) { // ky<0: no key set since the last final
        for (int op = 0; op < 10; op++) {
            if (d == 0 && op != first) continue; if (op >= 5 && ky < 0) break;
            std::unique_ptr<IMac> b(m.clone()); int k2 = ky; size_t n2 = n; u8 dg[128]; tick(); trans(); size_t U[3] = {1, k.bs - 1, k.bs + 1};
            hist.push_back(op < 4 ? "set_key(" + std::to_string(keys[op].size()) + ")" : op == 4 ? "construct" : op < 8 ? "update(" + std::to_string(U[op - 5]) + ")" : op == 8 ? "final" : "final(1)");
            if (op < 4) { b->key(keys[op].data(), keys[op].size()); k2 = op; n2 = 0; }
            else if (op == 4) { b->construct(keys[1].data(), keys[1].size()); k2 = 1; n2 = 0; }
            else if (op < 8) { b->update(msg.data() + n, U[op - 5]); n2 += U[op - 5]; }
            else { n2 += op == 9; if (op == 8) b->fin0(dg); else b->fin(dg, msg.data() + n, 1); trace(); if (memcmp(dg, want(ky, n2).data(), k.ds)) { std::string s; for (auto& x : hist) s += x + "; "; fail("history", "wrong MAC after: %s", s.c_str()); } k2 = -1; n2 = 0; }
            state(hashv(k.tag, k2, n2, 5)); if (d + 1 < D) rec(*b, k2, n2, d + 1); hist.pop_back();
        }
    };
    std::unique_ptr<IMac> m(k.make()); rec(*m, -1, 0, 0); if (!first) sample("HMAC %s: all histories of %d calls", k.name.c_str(), D);
})
// keys and messages of any length up to beyond 2^32 octets, and SM3 at 2^29 and 2^32 bits and octets
template <size_t BS> static void longmac(int k)
{
    typedef lng::SparseHash<BS == 8 ? 8 : 32, BS> H; const size_t DS = H::DIGEST_SIZE; const u8* p = lng::data(); ctx("HMAC over block size %zu", BS);
    for (long d : {0L, 1L, -1L, (long)BS, -(long)BS, 63L - (long)BS, 5L, -5L}) for (int w = 0; w < 3; w++) for (size_t other : {(size_t)0, (size_t)7, BS, BS + 1}) {
        size_t n = ((size_t)1 << k) + d, kl = w != 1 ? n : other, ml = w != 0 ? n : other; if (w == 2 && other != 7) continue; at("key %ld octets, message %ld octets", kl, ml); tick();
        Bytes key = kl > BS ? lng::eval(DS, {{p + 3, kl}}) : Bytes(p + 3, p + 3 + kl); key.resize(BS, 0); Bytes ip = key, op = key; for (auto& b : ip) b ^= 0x36; for (auto& b : op) b ^= 0x5c; Bytes want = lng::eval(DS, {op, lng::eval(DS, {ip, {p + 19, ml}})});
        hash_lib::HMac<H> m(p + 3, kl); Bytes o(DS); m.do_final(o.data(), p + 19, ml); trans(2); trace(); state(hashv(0x33, BS, kl, ml)); expect_eq("long", o.data(), want.data(), DS, "MAC in one call");
        m.set_key(p + 3, kl); m.update(p + 19, ml / 2 + 1 > ml ? ml : ml / 2 + 1); m.update(p + 19 + (ml / 2 + 1 > ml ? ml : ml / 2 + 1), ml - (ml / 2 + 1 > ml ? ml : ml / 2 + 1)); m.do_final(o.data()); trans(4); trace(); expect_eq("long", o.data(), want.data(), DS, "MAC in two calls");
    }
}
SCENARIO("long inputs", 4 * 25, [](long it) { int k = 8 + (int)(it / 4); switch (it % 4) { case 0: longmac<64>(k); break; case 1: longmac<8>(k); break; case 2: longmac<128>(k); break; default: longmac<136>(k); } })
// one object, keyed with one key and then with a related one: differing in one octet, cut, extended by zeros or by others, or the hash of the other
SCENARIO("related keys", [] { return (long)M.size() * 3; }, [](long it) {
    const MK& k = M[it / 3]; ctx("HMAC %s, related keys", k.name.c_str()); std::unique_ptr<IMac> m(k.make()); size_t bl = it % 3 == 0 ? k.bs : it % 3 == 1 ? k.bs / 2 : 2 * k.bs + 1; Bytes base = filled(bl, 77); std::vector<Bytes> ks;
    for (size_t i = 0; i < bl; i++) for (int x : {1, 0x80, 0xff, 0x36 ^ 0x5c}) { Bytes b = base; b[i] ^= x; ks.push_back(b); } for (size_t l = 0; l < bl; l++) ks.push_back(Bytes(base.begin(), base.begin() + l)); for (size_t l = 1; l <= k.bs + 1; l++) for (int z : {0, 0xa5}) { Bytes b = base; b.resize(bl + l, z); ks.push_back(b); }
    { Bytes b = base; std::reverse(b.begin(), b.end()); ks.push_back(b); ks.push_back(k.h(base)); b = base; for (auto& c : b) c ^= 0x36; ks.push_back(b); for (auto& c : b) c ^= 0x36 ^ 0x5c; ks.push_back(b); }
    Bytes msg = filled(k.bs + 3, 9), w0 = rfc2104(k, base, msg); for (size_t i = 0; i < ks.size(); i++) for (int how = 0; how < 3; how++) {
        at("key %ld of the list, manner %ld", i, how); u8 d[128]; m->key(base.data(), bl); if (how == 0) { m->fin(d, msg.data(), msg.size()); if (memcmp(d, w0.data(), k.ds)) fail("related", "wrong MAC under the first key"); } else if (how == 1) m->update(msg.data(), k.bs);
        m->key(ks[i].data(), ks[i].size()); m->fin(d, msg.data(), msg.size()); if (memcmp(d, rfc2104(k, ks[i], msg).data(), k.ds)) fail("related", "wrong MAC under the key %s set after %s", hex(ks[i]).c_str(), hex(base).c_str()); m->key(base.data(), bl); m->update(msg.data(), 3); m->fin(d, msg.data() + 3, msg.size() - 3); if (memcmp(d, w0.data(), k.ds)) fail("related", "wrong MAC under the key %s set after %s", hex(base).c_str(), hex(ks[i]).c_str()); trans(7); trace(); state(hashv(0x9e, k.tag, bl, i, how)); }
    sample("HMAC %s: %zu keys related to one of %zu octets", k.name.c_str(), ks.size(), bl);
})
// one message in more than 2^16 calls; more than 2^16 keys and messages on one object
SCENARIO("many", [] { return (long)M.size() * 2; }, [](long it) {
    const MK& k = M[it / 2]; const size_t N = thorough() ? 140000 : 66000; u8 d[128]; std::unique_ptr<IMac> m(k.make()); Bytes keys[4] = {filled(1, 1), filled(k.bs, 2), filled(k.bs + 1, 3), filled(0, 4)};
    if (it % 2) { ctx("HMAC %s: many calls", k.name.c_str()); for (std::vector<size_t> p : {std::vector<size_t>{1}, {0, 1, 0}, {k.bs, 0}, {k.bs + 1, 0, k.bs - 1, 2}, {0}}) { size_t L = 0; for (size_t j = 0; j < N; j++) L += p[j % p.size()]; at("%ld calls cycling over %ld lengths, the first %ld", N, p.size(), p[0]); tick(); Bytes msg = filled(L + 2, 3); Bytes want = rfc2104(k, keys[1], msg); tick(); m->key(keys[1].data(), keys[1].size()); size_t o = 0; for (size_t j = 0; j < N; j++) { m->update(msg.data() + o, p[j % p.size()]); o += p[j % p.size()]; trans(); } m->fin(d, msg.data() + o, 2); trace(); expect_eq("mac", d, want.data(), k.ds, "MAC of a message in many calls"); state(hashv(0x6d63, k.tag, p.size(), p[0])); } }
    else { ctx("HMAC %s: many messages", k.name.c_str()); Bytes msg = filled(2 * k.bs + 8, 5); std::map<u64, Bytes> cache; for (int pat = 0; pat < 3; pat++) for (size_t j = 0; j < N; j++) {
        if (j % 500 == 0) { at("message %ld, pattern %ld", j, pat); tick(); } const Bytes& ky = keys[pat == 0 ? 1 : j % 4]; size_t a = j % 5, b = j % (k.bs + 2); if (pat == 1 && j % 7 == 3) m->construct(ky.data(), ky.size()); else m->key(ky.data(), ky.size()); m->update(msg.data(), a); trans(2); if (pat == 2 && j % 4 != 1) { m->update(msg.data() + a, b); continue; } m->fin(d, msg.data() + a, b); trans(); trace(); Bytes& w = cache[(a + b) * 8 + (&ky - keys)]; if (w.empty()) w = rfc2104(k, ky, Bytes(msg.begin(), msg.begin() + a + b)); if (memcmp(d, w.data(), k.ds)) fail("many mac", "wrong MAC of %zu octets in message %zu on one object", a + b, j); } state(hashv(0x4d4d, k.tag)); }
})
MC_MAIN
