// C04: the GCM decryptor accepts exactly the genuine (IV, AAD, ciphertext, tag).
#include "gcm_if.h"
#include <gmlib/aes/aes.h>
#include <gmlib/sm4/sm4.h>
#include "longgcm.h"
using namespace mc; using namespace toy;
static std::vector<GKind> K;
SETUP([] { K = {GKIND(Toy<16, 4>), GKIND(Toy<16, 1>), GKIND(aes::AES128), GKIND(sm4::SM4), GKIND(aes::AES192), GKIND(aes::AES256)}; })
struct Shape { size_t iv, aad, len; };
static const Shape SH[] = {{12, 0, 0}, {12, 0, 1}, {12, 5, 16}, {13, 16, 17}, {12, 20, 33}, {16, 0, 64}, {1, 33, 79}, {12, 3, 15}};
struct Msg {
    Bytes key, iv, aad, pt, ct, tag;
    Msg(const GKind& k, const Shape& s, u64 seed)
    {
        key = filled(64, seed); iv = filled(s.iv, seed + 1); aad = filled(s.aad, seed + 2); pt = filled(s.len, seed + 3);
        Perm p = k.perm(key.data()); Bytes j = refgcm::j0_of(p, iv); ct = refgcm::gctr(p, j, pt); tag = refgcm::tag(p, j, aad, ct.data(), ct.size());
    }
};
// decrypts with one of several call shapes; returns acceptance and plaintext
static bool dec(IGcm& d, const Bytes& key, const Bytes& iv, const Bytes& aad, const Bytes& ct, const Bytes& tag, Bytes& out, int shape)
{
    out.assign(ct.size() + 16, 0xEE); size_t ol = 0, o = 0;
    d.init(key.data(), iv.data(), iv.size(), aad.data(), aad.size());
    if (shape != 1) d.set(tag.data());
    try {
        if (shape == 0) d.fin(out.data(), &ol, ct.data(), ct.size());
        else if (shape == 1) { d.update(out.data(), &ol, ct.data(), ct.size()); o = ol; d.set(tag.data()); d.fin0(out.data() + o, &ol); }
        else { for (size_t i = 0; i < ct.size(); i += 7) { d.update(out.data() + o, &ol, ct.data() + i, std::min((size_t)7, ct.size() - i)); o += ol; trans(); } d.fin0(out.data() + o, &ol); }
        trans(); trace(); out.resize(ct.size()); return true;
    } catch (std::runtime_error&) { trans(); trace(); return false; }
}
static const char* SN[] = {"one final call", "update, tag set late, final", "7-byte updates"};
SCENARIO("tamper", [] { return (long)(K.size() * 8 * 3); }, [](long it) {
    const GKind& k = K[it / 24]; const Shape& s = SH[it / 3 % 8]; int shape = it % 3;
    ctx("GCM %s iv=%zu aad=%zu len=%zu, %s", k.name, s.iv, s.aad, s.len, SN[shape]);
    Msg m(k, s, 1000 + it / 3); Bytes out; std::unique_ptr<IGcm> d(k.dec());
    auto good = [&](const char* w) { at("genuine message, %s", w); if (!dec(*d, m.key, m.iv, m.aad, m.ct, m.tag, out, shape)) fail("reject", "genuine message rejected (%s)", w); if (out != m.pt) fail("bytes", "wrong plaintext (%s)", w); };
    auto bad = [&](const Bytes& key, const Bytes& iv, const Bytes& aad, const Bytes& ct, const Bytes& tag) { state(hash(tag.data(), 16, hash(ct.data(), ct.size(), hash(aad.data(), aad.size(), hash(iv.data(), iv.size(), it))))); if (dec(*d, key, iv, aad, ct, tag, out, shape)) fail("accept", "altered message accepted: key %d iv %s aad %s ct %s tag %s (genuine tag %s)", (int)key[0], hex(iv).c_str(), hex(aad).c_str(), hex(ct).c_str(), hex(tag).c_str(), hex(m.tag).c_str()); };
    good("first");
    for (int i = 0; i < 128; i++) { at("tag bit %ld", i); Bytes t = m.tag; t[i / 8] ^= 1 << (i % 8); bad(m.key, m.iv, m.aad, m.ct, t); if (i % 16 == 0) good("after rejections"); }
    for (int i = 0; i < 128; i++) for (int j = i + 1; j < 128; j++) { if (shape && !thorough() && (i % 8 != j % 8)) continue; at("tag bits %ld,%ld", i, j); Bytes t = m.tag; t[i / 8] ^= 1 << (i % 8); t[j / 8] ^= 1 << (j % 8); bad(m.key, m.iv, m.aad, m.ct, t); }
    for (int dl = 1; dl < 256; dl++) for (int n = 1; n <= 16; n++) for (int side = 0; side < 2; side++) { at("tag delta %ld on %ld bytes side %ld", dl, n, side); Bytes t = m.tag, u = m.tag; for (int q = 0; q < n; q++) { t[side ? 15 - q : q] ^= dl; u[side ? 15 - q : q] += dl; } bad(m.key, m.iv, m.aad, m.ct, t); bad(m.key, m.iv, m.aad, m.ct, u); }
    for (int v = 0; v < 2; v++) { at("constant tag %ld", v); Bytes t(16, v ? 0xFF : 0); if (t != m.tag) bad(m.key, m.iv, m.aad, m.ct, t); }
    for (int p = 0; p < 16; p++) for (int v = 0; v < 256; v++) { Bytes t = m.tag; if (t[p] == v) continue; t[p] = v; at("tag byte %ld=%ld", p, v); bad(m.key, m.iv, m.aad, m.ct, t); }
    for (size_t i = 0; i < m.ct.size() * 8; i++) { at("ct bit %ld", i); Bytes c = m.ct; c[i / 8] ^= 1 << (i % 8); bad(m.key, m.iv, m.aad, c, m.tag); }
    for (size_t i = 0; i < m.aad.size() * 8; i++) { at("aad bit %ld", i); Bytes a = m.aad; a[i / 8] ^= 1 << (i % 8); bad(m.key, m.iv, a, m.ct, m.tag); }
    for (size_t i = 0; i < m.iv.size() * 8; i++) { at("iv bit %ld", i); Bytes v = m.iv; v[i / 8] ^= 1 << (i % 8); bad(m.key, v, m.aad, m.ct, m.tag); }
    for (size_t l = 0; l < m.ct.size(); l++) { at("ct cut to %ld", l); bad(m.key, m.iv, m.aad, Bytes(m.ct.begin(), m.ct.begin() + l), m.tag); }
    for (size_t l = 1; l <= 33; l++) for (int z = 0; z < 2; z++) { at("ct extended by %ld", l); Bytes c = m.ct; c.resize(c.size() + l, z ? 0xA5 : 0); bad(m.key, m.iv, m.aad, c, m.tag); Bytes a = m.aad; a.resize(a.size() + l, z ? 0xA5 : 0); bad(m.key, m.iv, a, m.ct, m.tag); }
    for (size_t l = 0; l < m.aad.size(); l++) { at("aad cut to %ld", l); bad(m.key, m.iv, Bytes(m.aad.begin(), m.aad.begin() + l), m.ct, m.tag); }
    if (m.aad.size() && m.ct.size()) { at("byte moved between aad and ct"); Bytes a = m.aad, c = m.ct; c.insert(c.begin(), a.back()); a.pop_back(); bad(m.key, m.iv, a, c, m.tag); a = m.aad; c = m.ct; a.push_back(c[0]); c.erase(c.begin()); bad(m.key, m.iv, a, c, m.tag); }
    { Bytes kk = filled(64, 4242); at("other key"); bad(kk, m.iv, m.aad, m.ct, m.tag); }
    for (size_t q = 0; q + 16 <= m.ct.size(); q += 16) for (size_t w = q + 16; w + 16 <= m.ct.size(); w += 16) { at("blocks %ld,%ld swapped", q, w); Bytes c = m.ct; std::swap_ranges(c.begin() + q, c.begin() + q + 16, c.begin() + w); bad(m.key, m.iv, m.aad, c, m.tag); }
    good("last");
    sample("GCM %s iv=%zu aad=%zu len=%zu: all 1- and 2-bit tag changes, all byte values, every ct/aad/iv bit, cuts and extensions", k.name, s.iv, s.aad, s.len);
})
// histories: up to N sessions over two objects, each genuine / wrong / abandoned / tag from another session
enum { GOOD, BADTAG, BADCT, ABANDON, ABANDON_PARTIAL, STALE, NSESS };
static const char* SNAME[] = {"genuine", "wrong tag", "altered ciphertext", "abandoned after init", "abandoned mid-message", "tag of the other message"};
SCENARIO("sessions", [] { return (long)(K.size() * NSESS * 2); }, [](long it) {
    const GKind& k = K[it / (NSESS * 2)]; int first = it % (NSESS * 2); int D = k.name[0] == 'T' ? (thorough() ? 5 : 4) : 3;
    Msg ma(k, SH[3], 1), mb(k, SH[4], 2); const Msg* M[2] = {&ma, &mb};
    ctx("GCM %s sessions, first %s on object %d", k.name, SNAME[first / 2], first % 2); at("depth %ld", D);
    std::vector<int> seq; std::function<void(const IGcm&, const IGcm&, int)> rec = [&](const IGcm& A, const IGcm& B, int d) {
        for (int op = 0; op < NSESS * 2; op++) {
            if (d == 0 && op != first) continue;
            std::unique_ptr<IGcm> a(A.clone()), b(B.clone()); IGcm& o = op % 2 ? *b : *a; int kind = op / 2; const Msg& m = *M[d % 2]; const Msg& other = *M[1 - d % 2];
            Bytes out; bool acc, want; tick(); seq.push_back(op);
            auto hist = [&] { std::string h; for (int x : seq) h += std::string(SNAME[x / 2]) + " on " + (x % 2 ? "B" : "A") + "; "; return h; };
            if (kind == ABANDON || kind == ABANDON_PARTIAL) { o.init(m.key.data(), m.iv.data(), m.iv.size(), m.aad.data(), m.aad.size()); o.set(m.tag.data()); Bytes t(64); size_t ol; if (kind == ABANDON_PARTIAL) o.update(t.data(), &ol, m.ct.data(), 17); trans(2); }
            else {
                Bytes ct = m.ct, tag = m.tag; want = kind == GOOD;
                if (kind == BADTAG) tag[d * 5 % 16] ^= 1; if (kind == BADCT) ct[d] ^= 0x80; if (kind == STALE) tag = other.tag;
                acc = dec(o, m.key, m.iv, m.aad, ct, tag, out, d % 3);
                if (acc != want) fail(acc ? "accept" : "reject", "session %d %s: history %s", d, acc ? "accepted" : "rejected", hist().c_str());
                if (acc && out != m.pt) fail("bytes", "wrong plaintext: history %s", hist().c_str());
            }
            u64 h = 7; for (int x : seq) h = hashv(h, x); state(hashv(h, k.tag));
            if (d + 1 < D) rec(*a, *b, d + 1);
            seq.pop_back();
        }
    };
    std::unique_ptr<IGcm> a(k.dec()), b(k.dec()); rec(*a, *b, 0);
    sample("GCM %s: all sequences of %d sessions of 6 kinds over 2 objects", k.name, D);
})
// two messages decrypted call by call in every interleaving, on two objects; every pattern of genuine/wrong tags
SCENARIO("interleaved", [] { return (long)(K.size() * 4); }, [](long it) {
    const GKind& k = K[it / 4]; int gp = it % 4; Msg m[2] = {Msg(k, SH[4], 3), Msg(k, SH[3], 4)};
    ctx("GCM %s interleaved, genuine pattern %d", k.name, gp); at("all interleavings of two 5-call decryptions");
    // calls per object: init, set_tag, update, update, final
    for (int mask = 0; mask < (1 << 10); mask++) {
        if (__builtin_popcount(mask) != 5) continue;
        std::unique_ptr<IGcm> d[2] = {std::unique_ptr<IGcm>(k.dec()), std::unique_ptr<IGcm>(k.dec())}; int pc[2] = {0, 0}; size_t o[2] = {0, 0}, ol; Bytes out[2] = {Bytes(128), Bytes(128)};
        for (int s = 0; s < 10; s++) {
            int w = mask >> s & 1; Msg& x = m[w]; bool genuine = gp >> w & 1; Bytes tag = x.tag; if (!genuine) tag[3] ^= 4; bool acc = true; trans();
            switch (pc[w]++) {
            case 0: d[w]->init(x.key.data(), x.iv.data(), x.iv.size(), x.aad.data(), x.aad.size()); break;
            case 1: d[w]->set(tag.data()); break;
            case 2: d[w]->update(out[w].data(), &ol, x.ct.data(), 9); o[w] += ol; break;
            case 3: d[w]->update(out[w].data() + o[w], &ol, x.ct.data() + 9, x.ct.size() - 9); o[w] += ol; break;
            case 4: try { d[w]->fin0(out[w].data() + o[w], &ol); } catch (std::runtime_error&) { acc = false; }
                if (acc != genuine) fail(acc ? "accept" : "reject", "object %d, interleaving %x", w, mask);
                if (acc && memcmp(out[w].data(), x.pt.data(), x.pt.size())) fail("bytes", "object %d, interleaving %x", w, mask);
            }
            state(hashv(k.tag, gp, pc[0], pc[1], mask & ((2 << s) - 1), 99));
        }
        trace(); tick();
    }
})
// long messages and additional data: the genuine message is accepted; other lengths, also such that agree modulo powers of
// two, single altered octets and altered tags are refused
template <size_t PN> static void longtamper(u64 n, u64 al, long it)
{
    using namespace lg; Bytes key = filled(16, 900 + n); const u8 *in = keys(key), *ad = nul(); u8 iv[12] = {9}, tg[16]; refgcm::store(tg, tag_of(key.data(), al, n)); GcmImpl<Const_<PN>, false> d;
    auto run = [&](const u8* aad, u64 a, const u8* c, u64 m, const u8* t, bool want, const char* what) { at("message of %ld octets, additional data of %ld", m, a); tick(); d.init(key.data(), iv, 12, aad, a); d.set(t); size_t ol; bool ok = true; try { if (it & 1) d.fin(lout(), &ol, c, m); else { d.update(lout(), &ol, c, m); d.fin0(lout(), &ol); } } catch (std::runtime_error&) { ok = false; } trans(3); trace(); tick(); state(hashv(0x404, PN, a, m, hash(t, 16), hash(what, strlen(what)))); if (ok != want) fail(want ? "refused" : "accepted", "%s: %s (genuine: %lu octets, additional data %lu)", what, want ? "a genuine message is refused" : "accepted", (unsigned long)n, (unsigned long)al); };
    run(ad, al, in, n, tg, true, "genuine"); bool big = n + al > 1 << 26 && !thorough();
    u8 t2[16]; for (int b = 0; b < 16; b += big ? 5 : 1) { memcpy(t2, tg, 16); t2[b] ^= (u8)(1 << b % 8); run(ad, al, in, n, t2, false, "tag altered"); if (big && b == 5) break; }
    for (u64 x : {n - 1, n + 1, n & 0xffff, n & 0x7ffffff, n & 0x1fffffff, n & 0xffffffff, n / 2}) if (x != n && x < (1ull << 32) + 4000 && (!big || x < 1 << 20)) run(ad, al, in, x, tg, false, "other message length");
    for (u64 x : {al - 1, al + 1, al & 0xffff, al & 0x7ffffff, al & 0x1fffffff, al & 0xffffffff, al / 2}) if (x != al && x < (1ull << 32) + 4000 && (!big || x < 1 << 20) && !(al == 0 && x > al + 1)) run(ad, x, in, n, tg, false, "other length of the additional data");
    u8* w = (u8*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (n <= 1 << 24 && w != (u8*)MAP_FAILED) { for (u64 i = 0; i < n; i++) w[i] = key[i % 16]; for (u64 q : {(u64)0, n / 3, n - 1, n - 16, n / 2, (u64)255}) if (q < n) { w[q] ^= 0x10; run(ad, al, w, n, tg, false, "octet altered"); w[q] ^= 0x10; } run(ad, al, w, n, tg, true, "genuine, at another place"); } if (w != (u8*)MAP_FAILED) munmap(w, n);
}
SCENARIO("long messages", 25 * 4, [](long it) {
    int k = 32 - (int)(it / 4); bool slow = sizeof(ghash::GHash) >= 1000; if (slow && k > 29 && !thorough()) return; u64 n = 1ull << k; int v = it % 4; ctx("GCM decryption over a constant permutation");
    if (k >= 31 && !thorough()) { if (v == (k & 1)) longtamper<16>(n + 37, 20, it); if (v == 2 + (k & 1)) longtamper<16>(33, n + 5, it); return; }
    if (v == 0) longtamper<16>(n + 37, 20, it); else if (v == 1) longtamper<4>(n, 0, it); else if (v == 2) longtamper<16>(33, n + 5, it); else longtamper<4>(n / 2 - 1, n / 2, it);
})
// more than 2^16 sessions of one kind on one object, each judged, and one of every other kind in between
SCENARIO("many sessions", [] { return (long)(K.size() * NSESS); }, [](long it) {
    const GKind& k = K[it / NSESS]; int main = it % NSESS; const int N = thorough() ? 140000 : 66000; Msg m[2] = {Msg(k, SH[3], 1), Msg(k, SH[4], 2)}; std::unique_ptr<IGcm> o(k.dec()); ctx("GCM %s: many sessions, mostly %s", k.name, SNAME[main]); Bytes out;
    for (int s = 0; s < N; s++) { int kind = s % 1000 == 999 || s > N - 20 ? (s / 1000 + s) % NSESS : main; const Msg &x = m[s & 1], &other = m[~s & 1]; if (s % 500 == 0) { at("session %ld", s); tick(); }
        if (kind == ABANDON || kind == ABANDON_PARTIAL) { o->init(x.key.data(), x.iv.data(), x.iv.size(), x.aad.data(), x.aad.size()); o->set(x.tag.data()); u8 t[64]; size_t ol; if (kind == ABANDON_PARTIAL) o->update(t, &ol, x.ct.data(), 17); trans(2); continue; }
        Bytes ct = x.ct, tag = x.tag; if (kind == BADTAG) tag[s * 5 % 16] ^= 1 << (s / 16 % 8); if (kind == BADCT) ct[s % ct.size()] ^= 0x80; if (kind == STALE) tag = other.tag; bool acc = dec(*o, x.key, x.iv, x.aad, ct, tag, out, s % 3);
        if (acc != (kind == GOOD)) fail(acc ? "accept" : "reject", "session %d on one object (%s, most before it %s) %s", s, SNAME[kind], SNAME[main], acc ? "accepted" : "rejected"); if (acc && out != x.pt) fail("bytes", "session %d on one object: wrong plaintext", s); }
    state(hashv(0x4d5, k.tag, main));
})
MC_MAIN
