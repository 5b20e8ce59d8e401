// SM9 signatures according to GB/T 38635.2, written from the standard over ref_sm9.h.
#pragma once
#include "sm9if.h"
#include "longsm.h"
#include <gmlib/sm9/sm9.h>
#include <gmlib/sm3/sm3.h>
template <> struct sm2r::HashOf<sm3::SM3> { static mc::Bytes eval(const mc::Bytes& b) { return refsm3::sm3(b); } };
namespace s9 {
using sm2r::ForcedHash; using sm2r::HashOf; using sm2r::ScriptRng; using sm2r::RanOut; using sm2r::WithHook; using sm2r::Hook; using sm2r::draw; using sm2r::word_for; using sm2r::num;
inline N NM1() { return rn::sub(N9(), 1); }
// powers of the pairing of the generators
inline F12 gpow(const N& e0)
{
    static std::vector<F12> t; if (t.empty()) { F12 g = gt(); for (int i = 0; i < 256; i++) { t.push_back(g); g = g * g; } }
    N e = mod(e0, N9()); F12 r = f12one(); bool on = false; for (int i = 0; i < 256; i++) if (bit(e, i)) { r = on ? r * t[i] : t[i]; on = true; } return r;
}
// octets hashed for H1/H2 with counter 1
inline Bytes hin(int tag, const Bytes& z, u32 ct = 1) { Bytes b; b.push_back((u8)tag); cat(b, z); for (int i = 3; i >= 0; i--) b.push_back((u8)(ct >> (8 * i))); return b; }
template <class H> N hn(int tag, const Bytes& z) { Bytes a; u32 ct = 1; while (a.size() < 40) cat(a, HashOf<H>::eval(hin(tag, z, ct++))); a.resize(40); return add(num(a, NM1()), 1); }
// the same over inputs of any length, for a hash that reads pieces
inline N hnl(size_t ds, int tag, const std::vector<lng::Piece>& z) { Bytes a, t = {(u8)tag}; u32 ct = 1; while (a.size() < 40) { Bytes c = {(u8)(ct >> 24), (u8)(ct >> 16), (u8)(ct >> 8), (u8)ct}; std::vector<lng::Piece> v = {t}; v.insert(v.end(), z.begin(), z.end()); v.push_back(c); cat(a, lng::eval(ds, v)); ct++; } a.resize(40); return add(num(a, NM1()), 1); }
inline Bytes idh(const Bytes& id, int hid) { Bytes z = id; z.push_back((u8)hid); return z; }
template <class H> N h1(const Bytes& id, int hid) { return hn<H>(1, idh(id, hid)); }
inline Bytes mw(const Bytes& m, const F12& w) { Bytes z = m; cat(z, enc(w)); return z; }
template <class H> N h2(const Bytes& m, const F12& w) { return hn<H>(2, mw(m, w)); }
// scalar of the user key, zero if the master key must be replaced
template <class H> N user(const N& ks, const Bytes& id, int hid) { N t = addm(h1<H>(id, hid), ks, N9()); return is0(t) ? zero() : mulm(ks, invm(t, N9()), N9()); }
struct Sig9 { N h; Pt S; int tries; };
template <class H> Sig9 sign(const N& ks, const N& t2, const Bytes& m, const std::vector<N>& rs)
{
    int t = 0; for (auto& r : rs) { t++; F12 w = gpow(mulm(ks, r, N9())); N h = h2<H>(m, w), l = subm(r, h, N9()); if (is0(l)) continue; return {h, sm9c().mulg(mulm(l, t2, N9())), t}; } return {zero(), Pt(), -1};
}
inline Bytes encsig(const N& h, const Pt& S, int fmt) { Bytes b = rn::bytes(h); cat(b, encp<G1>(S, fmt)); return b; }
// verification; s = discrete logarithm of S if known
template <class H> bool verify(const N& ks, const Bytes& sig, const Bytes& m, const Bytes& id, int hid, const N* s = nullptr)
{
    if (sig.size() < 33) return false; Pt S; size_t n; if (sm2r::dec(sm9c(), S, n, Bytes(sig.begin() + 32, sig.end())) || n + 32 != sig.size()) return false;
    N h = rn::get(&sig[0]), q = N9(); if (is0(h) || !(h < q)) return false; N a = addm(h1<H>(id, hid), ks, q); if (is0(a)) return false;
    F12 u = s ? gpow(mulm(*s, a, q)) : power(pairing()(S, tw().g), a); return h2<H>(m, u * gpow(mulm(ks, h, q))) == h;
}
// library objects
template <class H> struct Lib {
    typedef ::sm9::SM9SignMasterPrivateKey<H> M; typedef ::sm9::SM9SignMasterPublicKey<H> P; typedef ::sm9::SM9SignPrivateKey<H> K;
    static Bytes priv(const M& m) { Bytes b(32); m.get_priv(b.data()); return b; }
    static Bytes pub(const P& p) { Bytes b(128); p.get_pub(b.data(), b.data() + 64); return b; }
    static Bytes key(const K& k) { Bytes b(192); k.get_priv(&b[0], &b[32], &b[64], &b[128]); return b; }
    static K extract(const M& m, const Bytes& id, int hid) { ScriptRng r; mc::Tight t(id.size() + 1); t.set(id); t.g.ro(true); K k = hid == 1 && id.size() % 2 ? m.gen_SignPrivateKey(t.p, id.size(), r) : m.gen_SignPrivateKey(t.p, id.size(), r, (u8)hid); return k; }
    static Bytes sign(const K& k, const Bytes& m, ScriptRng& r, int fmt)
    {
        struct { u8 pre[16], s[97], post[16]; } o; memset(&o, 0xA7, sizeof o); size_t n = 777; mc::Tight t(m.size() + 1); t.set(m); t.g.ro(true);
        try { if (fmt == UNC && m.size() % 2) k.sign(o.s, &n, t.p, m.size(), r); else k.sign(o.s, &n, t.p, m.size(), r, (::sm9::SM9EcPC)fmt); } catch (RanOut&) { mc::fail("retry", "signing drew more random numbers than there are unacceptable ones"); }
        for (int i = 0; i < 16; i++) if (o.pre[i] != 0xA7 || o.post[i] != 0xA7) mc::fail("bounds", "wrote outside the signature");
        size_t want = fmt == COM ? 65 : 97; if (n != want) mc::fail("length", "signature length %zu, expected %zu", n, want); for (size_t i = n; i < 97; i++) if (o.s[i] != 0xA7) mc::fail("bounds", "wrote past the signature"); return Bytes(o.s, o.s + n);
    }
    template <class O> static bool verify(const O& p, const Bytes& sig, const Bytes& m, const Bytes& id, int hid)
    {
        mc::Tight s(sig.size() + 1), t(m.size() + 1), d(id.size() + 1); s.set(sig); t.set(m); d.set(id); s.g.ro(true); t.g.ro(true); d.g.ro(true);
        mc::eval(); return hid == 1 && m.size() % 2 ? p.verify(s.p, sig.size(), t.p, m.size(), d.p, id.size()) : p.verify(s.p, sig.size(), t.p, m.size(), d.p, id.size(), (u8)hid);
    }
};
inline Bytes pubbytes(const P2& q) { Bytes b = enc(q.x); cat(b, enc(q.y)); return b; }
}
