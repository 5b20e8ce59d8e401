// SM2 according to GB/T 32918, written directly from the standard over ref_ec.h, with a
// pluggable hash, plus a scripted random generator and a hash whose output can be forced.
#pragma once
#include "ref_ec.h"
#include "ref_sm3.h"
#include <functional>
#include <gmlib/hash_lib/hash.h>
#include <gmlib/rng/rng.h>
namespace sm2r {
using namespace re; using mc::Bytes;
typedef std::function<bool(const Bytes&, u8*, size_t)> Hook; // may fill the digest; false: default
inline Hook& hook() { static Hook h; return h; }
struct WithHook { explicit WithHook(Hook h) { hook() = std::move(h); } ~WithHook() { hook() = nullptr; } };
inline void digest(const Bytes& in, u8* out, size_t n)
{
    if (hook() && hook()(in, out, n)) return;
    u64 h = mc::hash(in.data(), in.size(), 0xabcd); Bytes t = mc::filled(n, h); memcpy(out, t.data(), n);
    if (n && out[0] == 0) out[0] = 1; // never all zero by accident
}
// hash with any digest size that hashes as `digest`
template <size_t DS, size_t BS = 64>
class ForcedHash : public hash_lib::Hash<BS> {
public:
    static constexpr std::size_t BLOCK_SIZE = BS, DIGEST_SIZE = DS;
    void reset() { this->hash_lib::Hash<BS>::reset(); in_.clear(); }
    const char* name() const noexcept override { return "forced"; }
private:
    Bytes in_;
    void update_blocks(const u8* in, std::size_t n) override { if (n) in_.insert(in_.end(), in, in + n * BS); }
    void final_block(u8* d, const u8* in, std::size_t n) override { if (n) in_.insert(in_.end(), in, in + n); digest(in_, d, DS); }
};
template <class H> struct HashOf; // reference evaluation of the hash H
template <size_t DS, size_t BS> struct HashOf<ForcedHash<DS, BS>> { static Bytes eval(const Bytes& b) { Bytes d(DS); digest(b, d.data(), DS); return d; } };

struct RanOut {};
class ScriptRng : public rng::Rng {
public:
    std::vector<Bytes> words; size_t pos = 0, asked = 0, calls = 0; bool ran_out = false;
    const char* name() const override { return "script"; }
    void gen(void* out, std::size_t len) override
    {
        u8* o = (u8*)out; calls++; asked += len;
        while (len) {
            if (pos / 32 >= words.size()) { ran_out = true; throw RanOut(); }
            *o++ = words[pos / 32][pos % 32]; pos++; len--;
        }
    }
    void push(const N& w) { words.push_back(rn::bytes(w)); }
    void restart() { pos = asked = calls = 0; ran_out = false; }
};
// random word -> k in [1, n-1], as the library draws it
inline N draw(const N& w, const N& m) { return add(mod(w, m), 1); }   // m = n-1
inline N word_for(const N& k) { return sub(k, 1); }

inline void cat(Bytes& a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); }
inline void cat(Bytes& a, const N& v) { cat(a, rn::bytes(v)); }
inline N num(const Bytes& d, const N& m) { N w = zero(); for (u8 b : d) { u64 w8[5] = {w.w[0] << 8 | b, w.w[1] << 8 | w.w[0] >> 56, w.w[2] << 8 | w.w[1] >> 56, w.w[3] << 8 | w.w[2] >> 56, w.w[3] >> 56}; w = modw(w8, 5, m); } return w; }
inline Bytes zinput(const Bytes& id, const Pt& P)
{
    Bytes b = {(u8)(id.size() * 8 >> 8), (u8)(id.size() * 8)}; cat(b, id); cat(b, sm2c().a); cat(b, sm2c().b); cat(b, sm2c().g.x); cat(b, sm2c().g.y); cat(b, P.x); cat(b, P.y); return b;
}
template <class H> Bytes minput(const Bytes& id, const Pt& P, const Bytes& m) { Bytes b = HashOf<H>::eval(zinput(id, P)); cat(b, m); return b; }
struct Sig { N r, s; int tries; };
inline Sig sign_e(const N& d, const N& e, const std::vector<N>& ks)
{
    const Curve& c = sm2c(); N i = invm(addm(d, small(1), c.n), c.n); int t = 0;
    for (auto& k : ks) {
        t++; Pt Q = c.mulg(k); N r = addm(e, mod(Q.x, c.n), c.n);
        if (is0(r) || is0(addm(r, k, c.n))) continue;
        N s = mulm(i, subm(k, mulm(r, d, c.n), c.n), c.n);
        if (is0(s)) continue;
        return {r, s, t};
    }
    return {zero(), zero(), -1};
}
template <class H> Sig sign(const N& d, const Bytes& id, const Bytes& m, const std::vector<N>& ks) { const Curve& c = sm2c(); return sign_e(d, num(HashOf<H>::eval(minput<H>(id, c.mulg(d), m)), c.n), ks); }
inline bool verify_e(const Pt& P, const N& r, const N& s, const N& e)
{
    const Curve& c = sm2c(); if (is0(r) || is0(s) || !(r < c.n) || !(s < c.n)) return false;
    N t = addm(r, s, c.n); if (is0(t)) return false;
    Pt Q = c.mul2(s, t, P); if (Q.inf) return false;
    return addm(e, mod(Q.x, c.n), c.n) == r;
}
template <class H> bool verify(const Pt& P, const N& r, const N& s, const Bytes& id, const Bytes& m) { return id.size() * 8 <= 65535 && verify_e(P, r, s, num(HashOf<H>::eval(minput<H>(id, P, m)), sm2c().n)); }
// values that differ from h in one bit, one octet, a word or by the order of its octets, and h itself
inline std::vector<N> altered(const N& h)
{
    std::vector<N> v; Bytes b = rn::bytes(h); auto put = [&](const Bytes& x) { v.push_back(rn::get(x.data())); };
    for (int i = 0; i < 256; i++) { Bytes x = b; x[i / 8] ^= 1 << i % 8; put(x); } for (int i = 0; i < 32; i++) { for (int k : {0xff, 0x0f, 0xa5}) { Bytes x = b; x[i] ^= k; put(x); } Bytes x = b; x[i] = 0; put(x); }
    for (int w : {1, 2, 4, 8, 16}) for (int i = 0; i + w <= 32; i += w) { Bytes x = b; for (int k = 0; k < w; k++) x[i + k] ^= 0xff; put(x); x = b; std::reverse(x.begin() + i, x.begin() + i + w); put(x); for (int j = 0; j < i; j += w) if (w > 2 || i - j == w) { x = b; std::swap_ranges(x.begin() + i, x.begin() + i + w, x.begin() + j); put(x); x = b; for (int k = 0; k < w; k++) x[i + k] ^= 0x81, x[j + k] ^= 0x81; put(x); } }
    for (int i = 1; i < 32; i++) { Bytes x = b; std::rotate(x.begin(), x.begin() + i, x.end()); put(x); x = b; for (int k = i; k < 32; k++) x[k] ^= 0x5a; put(x); x = b; for (int k = 0; k < i; k++) x[k] ^= 0x5a; put(x); } v.push_back(h); return v;
}
enum { UNC, COM, MIX };
inline Bytes enc(const Pt& P, int fmt) { Bytes b; b.push_back(fmt == UNC ? 4 : fmt == COM ? 2 + (P.y.w[0] & 1) : 6 + (P.y.w[0] & 1)); cat(b, P.x); if (fmt != COM) cat(b, P.y); return b; }
// 0 and the point, or -1; n = octets used
inline int dec(const Curve& c, Pt& P, size_t& n, const Bytes& b)
{
    if (b.empty()) return -1;
    u8 f = b[0]; bool lng = f == 4 || f == 6 || f == 7; if (!lng && f != 2 && f != 3) return -1;
    n = lng ? 65 : 33; if (b.size() < n) return -1;
    N x = rn::get(&b[1]); if (!(x < c.p)) return -1;
    N y; if (lng) { y = rn::get(&b[33]); if (!(y < c.p)) return -1; if (f != 4 && (int)(y.w[0] & 1) != (f & 1)) return -1; }
    else if (!c.lift(y, x, f & 1)) return -1;
    P = pt(x, y); return c.on(P) ? 0 : -1;
}
template <class H> Bytes kdf(const Bytes& z, size_t n) { Bytes r; u32 ct = 1; while (r.size() < n) { Bytes b = z; for (int i = 3; i >= 0; i--) b.push_back((u8)(ct >> (8 * i))); cat(r, HashOf<H>::eval(b)); ct++; } r.resize(n); return r; }
inline bool allzero(const Bytes& b) { for (u8 x : b) if (x) return false; return true; }
template <class H> Bytes encrypt(const Pt& P, const Bytes& m, int fmt, const std::vector<N>& ks, int* tries = nullptr)
{
    const Curve& c = sm2c(); int n = 0;
    for (auto& k : ks) {
        n++; Pt C1 = c.mulg(k), S = c.mul(k, P); Bytes z = rn::bytes(S.x); cat(z, S.y); Bytes t = kdf<H>(z, m.size());
        if (m.size() && allzero(t)) continue;
        Bytes r = enc(C1, fmt), h = rn::bytes(S.x); cat(h, m); cat(h, S.y); cat(r, HashOf<H>::eval(h));
        for (size_t i = 0; i < m.size(); i++) r.push_back(m[i] ^ t[i]);
        if (tries) *tries = n; return r;
    }
    if (tries) *tries = -1; return Bytes();
}
template <class H> bool decrypt(Bytes& m, const N& d, const Bytes& ct)
{
    const Curve& c = sm2c(); Pt C1; size_t n; if (dec(c, C1, n, ct)) return false;
    size_t ds = HashOf<H>::eval(Bytes()).size(); if (ct.size() < n + ds) return false;
    Pt S = c.mul(d, C1); Bytes z = rn::bytes(S.x); cat(z, S.y); size_t len = ct.size() - n - ds; Bytes t = kdf<H>(z, len);
    if (len && allzero(t)) return false;
    m.resize(len); for (size_t i = 0; i < len; i++) m[i] = ct[n + ds + i] ^ t[i];
    Bytes h = rn::bytes(S.x); cat(h, m); cat(h, S.y);
    return !memcmp(HashOf<H>::eval(h).data(), &ct[n], ds);
}
} // namespace sm2r
