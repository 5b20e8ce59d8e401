// C33: a random generator or hash that fails stops the operation, and nothing of the failed call stays behind.
#include "sm9ref.h"
#include "longsm.h"
#include <gmlib/sm2/sm2.h>
#include <new>
using namespace sm2r; using namespace r9;
typedef ForcedHash<32> H; typedef ::sm2::SM2PrivateKey<H> Priv; typedef ::sm2::SM2PublicKey<H> Pub; typedef s9::Lib<H> L9;
// ---- faults ------------------------------------------------------------------
struct Boom { int id; }; struct Own : std::runtime_error { int id; explicit Own(int i) : std::runtime_error("generator"), id(i) {} };
enum { KINDS = 6 }; static const char cstr_[] = "failed";
[[noreturn]] static void blow(int kind) { switch (kind) { case 0: throw Own(41); case 1: throw Boom{42}; case 2: throw std::bad_alloc(); case 3: throw 43; case 4: throw cstr_; default: throw std::logic_error("generator is not seeded"); } }
// -1: nothing came; else the kind that came unchanged; -2: another exception
template <class F> static int caught(F f)
{
    try { f(); return -1; } catch (mc::Abort&) { throw; } catch (Own& e) { return e.id == 41 ? 0 : -2; } catch (Boom& e) { return e.id == 42 ? 1 : -2; } catch (std::bad_alloc&) { return 2; } catch (int i) { return i == 43 ? 3 : -2; } catch (const char* p) { return p == cstr_ ? 4 : -2; } catch (std::logic_error& e) { return !strcmp(e.what(), "generator is not seeded") ? 5 : -2; } catch (...) { return -2; }
}
// a stream of octets that fails when octet `at` is asked for; what else of the request is written: nothing, zeros, ones, the true octets, or the true octets before and zeros from there on
class Faulty : public rng::Rng {
public:
    Bytes s; long at; int rest, kind; size_t pos = 0, after = 0; bool failed = false;
    Faulty(const std::vector<N>& words, long a, int r, int k) : at(a), rest(r), kind(k) { for (auto& w : words) cat(s, w); }
    const char* name() const override { return "faulty"; }
    void gen(void* out, std::size_t len) override
    {
        u8* o = (u8*)out; if (failed) after++;
        if (!failed && at >= 0 && (size_t)at < pos + len) { failed = true; size_t b = at - pos; for (size_t i = 0; i < len; i++) { u8 t = pos + i < s.size() ? s[pos + i] : 0; if (rest == 0) { if (i < b) o[i] = t; } else if (rest == 1) o[i] = 0; else if (rest == 2) o[i] = 0xFF; else if (rest == 3) o[i] = t; else o[i] = i < b ? t : 0; } pos += len; blow(kind); }
        for (size_t i = 0; i < len; i++) { if (pos >= s.size()) { if (failed) { o[i] = 1; continue; } mc::fail("draws", "more random octets are drawn than the accepted numbers need (%zu)", pos); } o[i] = s[pos++]; }
    }
};
static void judge(const char* op, int got, int kind, const Faulty& r) { mc::eval(); if (got == -1) mc::fail("swallowed", "%s returns although the generator failed at octet %ld", op, r.at); if (got != kind) mc::fail("exception", "%s: another exception than that of the generator arrives", op); if (r.after) mc::fail("asked again", "%s asks the generator again after it failed", op); }
template <class F> static void fault(const char* op, const std::vector<N>& words, long at, int rest, int kind, F f) { Faulty r(words, at, rest, kind); int g = caught([&] { f(r); }); if (!r.failed) mc::fail("draws", "%s draws fewer octets than its numbers need: octet %ld is never asked for", op, at); judge(op, g, kind, r); mc::trans(); mc::trace(); }
// ---- SM2 ---------------------------------------------------------------------
static const Bytes MSG = mc::filled(37, 4), ID = [] { Bytes i(16); for (int k = 0; k < 16; k++) i[k] = (u8)('1' + k % 8); return i; }();
static N NN1() { return sub(SM2N(), 1); }
static N NN2() { return sub(SM2N(), 2); }
struct Known { N d; Pt P; Bytes sig, ct; };
static const N& K1() { static N k = draw(filler(801), NN1()); return k; }
static const Known& known(const N& d) { static std::map<std::string, Known> m; std::string s = rn::str(d); auto f = m.find(s); if (f != m.end()) return f->second; Known v; v.d = d; v.P = sm2c().mulg(d); Sig g = sign<H>(d, ID, MSG, {K1()}); v.sig = rn::bytes(g.r); cat(v.sig, g.s); v.ct = encrypt<H>(v.P, MSG, UNC, {K1()}); return m[s] = v; }
static Bytes privb(const Priv& k) { Bytes b(32); k.get_priv(b.data()); return b; }
static Bytes pubb(const Pub& p) { Bytes b(64); p.get_pub(b.data(), b.data() + 32); return b; }
static Bytes xy(const Pt& P) { Bytes b = rn::bytes(P.x); cat(b, P.y); return b; }
static void is2(const Priv& k, const N& d, const char* what, bool deep)
{
    const Known& w = known(d); if (privb(k) != rn::bytes(d)) mc::fail("state", "%s: the private key is %s, expected %s", what, mc::hex(privb(k)).c_str(), rn::str(d).c_str()); if (pubb(k.fetch_pub()) != xy(w.P)) mc::fail("state", "%s: the public key is no longer that of %s", what, rn::str(d).c_str()); if (!deep) return;
    Faulty r({filler(801), filler(801)}, -1, 0, 0); u8 sg[64]; k.sign(sg, MSG.data(), MSG.size(), r); if (memcmp(sg, w.sig.data(), 64)) mc::fail("state", "%s: the key signs differently", what);
    Bytes ct(w.ct.size()); size_t n; k.encrypt(ct.data(), &n, MSG.data(), MSG.size(), r); if (n != ct.size() || ct != w.ct) mc::fail("state", "%s: the key encrypts differently", what); Bytes o(MSG.size()); k.decrypt(o.data(), &n, ct.data(), ct.size()); if (o != MSG) mc::fail("state", "%s: the key decrypts differently", what); if (!k.verify(sg, MSG.data(), MSG.size())) mc::fail("state", "%s: the key refuses its signature", what);
}
static Priv mk(const N& d) { u8 b[32]; rn::put(b, d); return Priv(b); }
static std::vector<N> keys() { return {filler(31), small(1), sub(SM2N(), 2), filler(33)}; }
static N genned(const N& w) { return draw(w, NN2()); }
// generation: every octet, every way of failing, objects with several pasts
SCENARIO("SM2 generation", 33 * 5, [](long it) {
    long at = it % 33; int rest = (int)(it / 33); N w = filler(67); if (at == 32) { if (rest) return; at = -1; }
    for (int past = 0; past < 5; past++) for (int kind = 0; kind < KINDS; kind++) {
        mc::at("octet %ld, rest written %ld, object %ld, exception %ld", at, rest, past, kind); mc::state(mc::hashv(1, at + 1, rest, past * 8 + kind)); Priv k; N d = zero(); if (past == 1) { d = filler(31); k = mk(d); } else if (past == 2) { Faulty g({filler(69)}, -1, 0, 0); k.gen_priv(g); d = genned(filler(69)); } else if (past == 3) { d = sub(SM2N(), 2); Priv o = mk(d); k = o; } else if (past == 4) { d = small(2); k = mk(d); u8 z[32] = {0}; try { k.set_priv(z); } catch (std::exception&) {} }
        if (at >= 0) { fault("key generation", {w}, at, rest, kind, [&](rng::Rng& r) { k.gen_priv(r); }); if (past) is2(k, d, "after a failed generation", kind == 0); bool made = false; fault("the generating constructor", {w}, at, rest, kind, [&](rng::Rng& r) { Priv t(r); made = true; }); if (made) mc::fail("swallowed", "a key object exists although its generator failed"); }
        Faulty g({w}, -1, 0, 0); k.gen_priv(g); is2(k, genned(w), "generation after a failed one", kind == 1); if (g.pos != 32) mc::fail("draws", "%zu octets drawn", g.pos); u8 b[32]; rn::put(b, filler(33)); fault("key generation", {w}, 5, rest, kind, [&](rng::Rng& r) { k.gen_priv(r); }); k.set_priv(b); is2(k, filler(33), "import after a failed generation", kind == 2);
    } if (it == 0) mc::sample("SM2 key generation failing at each of 32 octets, 5 ways of writing, 6 exceptions, 5 pasts"); })
// signing after 0..2 rejected numbers
static N e_for(int rule, const N& k, const N& d) { const Curve& c = sm2c(); N x = mod(c.mulg(k).x, c.n), r = rule == 0 ? zero() : rule == 1 ? subm(zero(), k, c.n) : mulm(k, invm(d, c.n), c.n); return subm(r, x, c.n); }
SCENARIO("SM2 signing", 4 * 3 * 4, [](long it) {
    N d = keys()[it % 4], kr = filler(41), ok = filler(52); int rule = (int)(it / 4 % 3), rej = (int)(it / 12); const Curve& c = sm2c(); known(d); Bytes m = mc::filled(20 + it, it); Bytes e = rn::bytes(e_for(rule, kr, d)), in = minput<H>(ID, c.mulg(d), m); std::vector<N> w(rej, word_for(kr)), ks(rej, kr); w.push_back(word_for(ok)); ks.push_back(ok); Priv k = mk(d); Pub p = k.fetch_pub();
    WithHook h([in, e](const Bytes& x, u8* o, size_t n) { if (x != in) return false; memcpy(o, e.data(), n); return true; }); Sig want = sign<H>(d, ID, m, ks); if (want.tries != rej + 1) _exit(90); Bytes ws = rn::bytes(want.r); cat(ws, want.s); struct { u8 a[16], s[64], z[16]; } o;
    for (long at = 0; at < 32 * (rej + 1); at++) for (int rest = 0; rest < 5; rest++) { int kind = (int)((at + rest) % KINDS); mc::at("%ld rejected numbers, octet %ld, rest written %ld, exception %ld", rej, at, rest, kind); mc::state(mc::hashv(2, it, at, rest)); memset(&o, 0xA7, sizeof o);
        fault("signing", w, at, rest, kind, [&](rng::Rng& r) { if (at % 2) k.sign(o.s, m.data(), m.size(), r); else k.sign(o.s, m.data(), m.size(), r, ID.data(), ID.size()); }); for (int i = 0; i < 16; i++) if (o.a[i] != 0xA7 || o.z[i] != 0xA7) mc::fail("bounds", "a failed signature writes outside the signature"); if (at % 32 == 0 || at % 32 == 31) { if (p.verify(o.s, m.data(), m.size())) mc::fail("result", "a failed signing leaves a valid signature"); }
        is2(k, d, "after a failed signature", at % 32 == 7 && rest == 0); if (rest == 1) { Faulty r(w, -1, 0, 0); k.sign(o.s, m.data(), m.size(), r); if (memcmp(o.s, ws.data(), 64)) mc::fail("later call", "the signature after a failed one differs from the standard's"); if (r.pos != w.size() * 32) mc::fail("draws", "%zu octets drawn, expected %zu", r.pos, w.size() * 32); } }
    if (it == 13) mc::sample("signing after %d rejected numbers failing at each of %d octets", rej, 32 * (rej + 1)); })
// encryption, the key stream of the first numbers being zero
SCENARIO("SM2 encryption", 7 * 3 * 2, [](long it) {
    static const size_t lens[] = {1, 2, 31, 32, 33, 64, 100}; size_t n = lens[it % 7]; int fmt = (int)(it / 7 % 3), viapub = (int)(it / 21); N d = filler(31), kr = filler(41), ok = filler(52); const Curve& c = sm2c(); Pt P = known(d).P, Z = c.mul(kr, P); Bytes z = rn::bytes(Z.x); cat(z, Z.y); Bytes m = mc::filled(n, it); Priv k = mk(d); Pub p = k.fetch_pub();
    WithHook h([z](const Bytes& x, u8* o, size_t l) { if (x.size() != 68 || memcmp(x.data(), z.data(), 64)) return false; memset(o, 0, l); return true; }); for (int rej = 0; rej < 3; rej++) { std::vector<N> w(rej, word_for(kr)), ks(rej, kr); w.push_back(word_for(ok)); ks.push_back(ok); int tries = 0; Bytes want = encrypt<H>(P, m, fmt, ks, &tries); if (tries != rej + 1) _exit(90); mc::Guard g(want.size()); u8* o = g.tail(want.size());
        for (long at = 0; at < 32 * (rej + 1); at++) for (int rest = 0; rest < 5; rest++) { int kind = (int)((at + rest) % KINDS); mc::at("%ld rejected numbers, octet %ld, rest written %ld, exception %ld", rej, at, rest, kind); mc::state(mc::hashv(3, it, at + rej * 1000, rest)); size_t l = 12345; memset(o, 0xA7, want.size());
            fault("encryption", w, at, rest, kind, [&](rng::Rng& r) { if (viapub) p.encrypt(o, &l, m.data(), n, r, (::sm2::SM2EcPC)fmt); else k.encrypt(o, &l, m.data(), n, r, (::sm2::SM2EcPC)fmt); }); if (rest == 3) { Bytes back(n + 1); size_t q = 0; bool dec = true; try { k.decrypt(back.data(), &q, o, want.size()); } catch (std::exception&) { dec = false; } if (dec) mc::fail("result", "a failed encryption leaves a ciphertext"); }
            is2(k, d, "after a failed encryption", at % 32 == 9 && rest == 0); if (rest == 1) { Faulty r(w, -1, 0, 0); (viapub ? p.encrypt(o, &l, m.data(), n, r, (::sm2::SM2EcPC)fmt) : k.encrypt(o, &l, m.data(), n, r, (::sm2::SM2EcPC)fmt)); if (l != want.size() || memcmp(o, want.data(), l)) mc::fail("later call", "the ciphertext after a failed one differs from the standard's"); if (r.pos != w.size() * 32) mc::fail("draws", "%zu octets drawn, expected %zu", r.pos, w.size() * 32); } } } })
// ---- SM9 ---------------------------------------------------------------------
static const Bytes ALICE = {'A', 'l', 'i', 'c', 'e'};
struct K9 { N ks, t2; Bytes priv, pub, key, sig; L9::M m; L9::K k; };
static K9& k9(long i) { static std::map<long, K9> M; auto f = M.find(i); if (f != M.end()) return f->second; K9& x = M[i]; x.ks = i == 0 ? mod(filler(64), N9()) : i == 1 ? small(2) : draw(filler(67), s9::NM1()); x.t2 = s9::user<H>(x.ks, ALICE, 1); u8 b[32]; rn::put(b, x.ks); x.m.set_priv(b); x.k = L9::extract(x.m, ALICE, 1); x.priv = rn::bytes(x.ks); x.pub = s9::pubbytes(tw().mulg(x.ks)); x.key = L9::key(x.k); auto s = s9::sign<H>(x.ks, x.t2, MSG, {draw(filler(91), s9::NM1())}); x.sig = s9::encsig(s.h, s.S, UNC); return x; }
static Bytes sign9(const L9::K& k, rng::Rng& r, const Bytes& m = MSG, int fmt = UNC) { u8 o[97]; size_t n; k.sign(o, &n, m.data(), m.size(), r, (::sm9::SM9EcPC)fmt); return Bytes(o, o + n); }
static void is9(const L9::M& m, const K9& w, const char* what, bool deep) { if (L9::priv(m) != w.priv) mc::fail("state", "%s: the master key changed", what); if (L9::pub(m.fetch_SignPublicKey()) != w.pub) mc::fail("state", "%s: the master public key changed", what); if (!deep) return; L9::K k = L9::extract(m, ALICE, 1); if (L9::key(k) != w.key) mc::fail("state", "%s: another user key is extracted", what); Faulty r({filler(91)}, -1, 0, 0); Bytes s = sign9(k, r); if (s != w.sig) mc::fail("state", "%s: the extracted key signs differently", what); if (!L9::verify(m.fetch_SignPublicKey(), s, MSG, ALICE, 1)) mc::fail("state", "%s: the master public key refuses", what); }
SCENARIO("SM9 generation", 33 * 5, [](long it) {
    long at = it % 33; int rest = (int)(it / 33); N w = filler(67); if (at == 32) { if (rest) return; at = -1; } for (int past = 0; past < 4; past++) { int kind = (int)((it + past) % KINDS); mc::at("octet %ld, rest written %ld, object %ld, exception %ld", at, rest, past, kind); mc::state(mc::hashv(4, at + 1, rest, past)); L9::M m; const K9* was = nullptr; u8 b[32]; if (past == 1) { was = &k9(0); rn::put(b, was->ks); m.set_priv(b); } else if (past == 2) { was = &k9(2); Faulty g({w}, -1, 0, 0); m.gen_priv(g); } else if (past == 3) { was = &k9(1); m = k9(1).m; }
        if (at >= 0) { std::vector<N> ws = {past == 2 ? filler(68) : w}; fault("master key generation", ws, at, rest, kind, [&](rng::Rng& r) { m.gen_priv(r); }); if (was) is9(m, *was, "after a failed generation", past == 1 || at % 8 == 0); bool made = false; fault("the generating constructor", {w}, at, rest, kind, [&](rng::Rng& r) { L9::M t(r); made = true; }); if (made) mc::fail("swallowed", "a key object exists although its generator failed");
            if (was) { L9::K k; Faulty r({w}, at, rest, kind); int g = caught([&] { k = m.gen_SignPrivateKey(ALICE.data(), ALICE.size(), r); }); if (r.failed) judge("extraction", g, kind, r); else if (g != -1) mc::fail("exception", "extraction fails although the generator was not asked"); else if (L9::key(k) != was->key) mc::fail("later call", "another key is extracted"); } }
        Faulty g({w}, -1, 0, 0); m.gen_priv(g); is9(m, k9(2), "generation after a failed one", at % 4 == 0); if (g.pos != 32) mc::fail("draws", "%zu octets drawn", g.pos); } })
static Bytes forty(const N& h) { Bytes b(8, 0); cat(b, rn::sub(h, 1)); return b; }
SCENARIO("SM9 signing", 3 * 3 * 3, [](long it) {
    K9& x = k9(it % 3); int fmt = (int)(it / 3 % 3), rej = (int)(it / 9); N rr = mod(filler(41), N9()), ok = mod(filler(52), N9()); Bytes m = mc::filled(20 + it, it), in = {2}; cat(in, s9::mw(m, s9::gpow(mulm(x.ks, rr, N9())))); Bytes out = forty(rr);
    WithHook h([in, out](const Bytes& q, u8* o, size_t n) { if (q.size() != in.size() + 4 || memcmp(q.data(), in.data(), in.size())) return false; u32 ct = q.back(); for (size_t i = 0; i < n; i++) { size_t j = (ct - 1) * n + i; o[i] = j < out.size() ? out[j] : 0x33; } return true; }); std::vector<N> w(rej, word_for(rr)), ks(rej, rr); w.push_back(word_for(ok)); ks.push_back(ok); auto s = s9::sign<H>(x.ks, x.t2, m, ks); if (s.tries != rej + 1) _exit(90); Bytes want = s9::encsig(s.h, s.S, fmt); u8 o[97];
    for (long at = 0; at < 32 * (rej + 1); at++) for (int rest = 0; rest < 5; rest++) { if (!mc::thorough() && (at + rest) % 3 && at % 32 && at % 32 != 31) continue; int kind = (int)((at + rest) % KINDS); mc::at("%ld rejected numbers, octet %ld, rest written %ld, exception %ld", rej, at, rest, kind); mc::state(mc::hashv(5, it, at, rest)); size_t l = 97; memset(o, 0xA7, sizeof o); fault("signing", w, at, rest, kind, [&](rng::Rng& r) { k9(it % 3).k.sign(o, &l, m.data(), m.size(), r, (::sm9::SM9EcPC)fmt); }); if (L9::key(x.k) != x.key) mc::fail("state", "a failed signature changed the key"); if (at % 32 == 3) { size_t vl = fmt == COM ? 65 : 97; if (L9::verify(x.k, Bytes(o, o + vl), m, ALICE, 1)) mc::fail("result", "a failed signing leaves a valid signature"); }
        if (rest == 1 && at % 4 == 0) { Faulty r(w, -1, 0, 0); if (sign9(x.k, r, m, fmt) != want) mc::fail("later call", "the signature after a failed one differs from the standard's"); if (r.pos != w.size() * 32) mc::fail("draws", "%zu octets drawn, expected %zu", r.pos, w.size() * 32); } } })
// ---- histories -----------------------------------------------------------------
SCENARIO("SM2 histories", 11 * 11, [](long it) {
    int depth = mc::thorough() ? 5 : 4; long total = 1; for (int i = 2; i < depth; i++) total *= 11; N k1 = filler(31); for (long s = 0; s < total; s++) { Priv k = mk(small(2)); N cur = small(2); long v = s * 121 + it; mc::state(mc::hashv(6, v));
        for (int i = 0; i < depth; i++, v /= 11) { int op = (int)(v % 11), kind = (int)((s + i) % KINDS); mc::at("history %ld step %ld", s * 121 + it, i); mc::tick(); u8 b[32], sg[64]; Bytes ct(97 + MSG.size()); size_t n;
            if (op < 2) { Faulty g({filler(67 + op)}, -1, 0, 0); k.gen_priv(g); cur = genned(filler(67 + op)); } else if (op < 5) fault("key generation", {filler(69)}, op == 2 ? 0 : op == 3 ? 17 : 31, op, kind, [&](rng::Rng& r) { k.gen_priv(r); }); else if (op == 5) { rn::put(b, k1); k.set_priv(b); cur = k1; } else if (op == 6) fault("signing", {filler(801)}, 13, 3, kind, [&](rng::Rng& r) { k.sign(sg, MSG.data(), MSG.size(), r); }); else if (op == 7) fault("encryption", {filler(801)}, 30, 2, kind, [&](rng::Rng& r) { k.encrypt(ct.data(), &n, MSG.data(), MSG.size(), r); });
            else if (op == 8) { Priv o = mk(filler(33)); fault("key generation", {filler(69)}, 8, 3, kind, [&](rng::Rng& r) { o.gen_priv(r); }); k = o; cur = filler(33); } else if (op == 9) { Faulty r({filler(801)}, -1, 0, 0); k.sign(sg, MSG.data(), MSG.size(), r); if (memcmp(sg, known(cur).sig.data(), 64)) mc::fail("later call", "a signature in a history with failures differs"); } else { Faulty r({filler(801)}, -1, 0, 0); k.encrypt(ct.data(), &n, MSG.data(), MSG.size(), r); if (ct != known(cur).ct) mc::fail("later call", "a ciphertext in a history with failures differs"); }
            is2(k, cur, "history", i == depth - 1 && s % 5 == 0); mc::trans(); } mc::trace(); } })
SCENARIO("SM9 histories", 7 * 7, [](long it) {
    int depth = mc::thorough() ? 5 : 4; long total = 1; for (int i = 2; i < depth; i++) total *= 7; for (long s = 0; s < total; s++) { L9::M m = k9(1).m; const K9* cur = &k9(1); long v = s * 49 + it; mc::state(mc::hashv(7, v));
        for (int i = 0; i < depth; i++, v /= 7) { int op = (int)(v % 7), kind = (int)((s + i) % KINDS); mc::at("history %ld step %ld", s * 49 + it, i); mc::tick(); if (op == 0) { Faulty g({filler(67)}, -1, 0, 0); m.gen_priv(g); cur = &k9(2); } else if (op < 4) fault("master key generation", {filler(68)}, op == 1 ? 0 : op == 2 ? 20 : 31, op, kind, [&](rng::Rng& r) { m.gen_priv(r); }); else if (op == 4) { u8 b[32]; rn::put(b, k9(0).ks); m.set_priv(b); cur = &k9(0); } else if (op == 5) { L9::K k = L9::extract(m, ALICE, 1); fault("signing", {filler(91)}, 9, 3, kind, [&](rng::Rng& r) { sign9(k, r); }); Faulty r({filler(91)}, -1, 0, 0); if (sign9(k, r) != cur->sig) mc::fail("later call", "a signature in a history with failures differs"); } else { L9::M o = k9(0).m; fault("master key generation", {filler(68)}, 8, 3, kind, [&](rng::Rng& r) { o.gen_priv(r); }); m = o; cur = &k9(0); }
            is9(m, *cur, "history", i == depth - 1 && s % 3 == 0); mc::trans(); } mc::trace(); } })
// ---- a hash that fails -----------------------------------------------------------
// the j-th digest of an operation throws; every j until the operation asks for no more
template <class F, class C> static void hashfault(const char* op, F f, C check)
{
    for (long j = 0;; j++) { int kind = (int)(j % KINDS); long cnt = 0, after = 0; bool blew = false; mc::at("%s, digest %ld fails", op, j); int g; { WithHook h([&](const Bytes&, u8*, size_t) { if (blew) after++; if (cnt++ == j) { blew = true; blow(kind); } return false; }); g = caught(f); } mc::eval(); mc::trace(); mc::trans(); mc::state(mc::hashv(8, mc::hash(op, strlen(op)), j)); if (!blew) { if (g != -1) mc::fail("exception", "%s throws although nothing failed", op); return; }
        if (g == -1) mc::fail("swallowed", "%s returns although its hash failed at digest %ld", op, j); if (g != kind) mc::fail("exception", "%s: another exception than that of the hash arrives", op); (void)after; check(); if (j > 400) _exit(90); }
}
SCENARIO("failing hash", 4 * 6, [](long it) {
    N d = keys()[it % 4]; Priv k = mk(d); K9& x = k9(it % 3); L9::M m = x.m; L9::K u = x.k; static const size_t lens[] = {0, 1, 32, 33, 64, 200}; Bytes msg = mc::filled(lens[it / 4], it), ct(97 + msg.size()), pt(msg.size() + 1), good = encrypt<H>(known(d).P, msg, UNC, {K1()}); u8 sg[64]; size_t n; auto c2 = [&] { is2(k, d, "after a failed hash", true); }; auto c9 = [&] { is9(m, x, "after a failed hash", true); if (L9::key(u) != x.key) mc::fail("state", "the user key changed"); };
    hashfault("SM2 signing", [&] { Faulty r({filler(801)}, -1, 0, 0); k.sign(sg, msg.data(), msg.size(), r); }, c2); hashfault("SM2 encryption", [&] { Faulty r({filler(801)}, -1, 0, 0); k.encrypt(ct.data(), &n, msg.data(), msg.size(), r); }, c2); hashfault("SM2 decryption", [&] { k.decrypt(pt.data(), &n, good.data(), good.size()); }, c2);
    hashfault("SM9 extraction", [&] { Faulty r({filler(801)}, -1, 0, 0); m.gen_SignPrivateKey(msg.data(), msg.size(), r); }, c9); hashfault("SM9 signing", [&] { Faulty r({filler(91)}, -1, 0, 0); sign9(u, r, msg); }, c9); })
MC_MAIN
