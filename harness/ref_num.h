// Plain multi-word reference arithmetic (schoolbook, no Montgomery form).
#pragma once
#include "mc.h"
namespace rn {
typedef mc::u64 u64; typedef mc::u32 u32; typedef mc::u8 u8; typedef unsigned __int128 u128;
struct N { u64 w[4]; };                    // little-endian words
inline N zero() { return N{{0, 0, 0, 0}}; }
inline N small(u64 v) { return N{{v, 0, 0, 0}}; }
inline int cmpw(const u64* a, const u64* b, int n) { for (int i = n - 1; i >= 0; i--) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
inline int cmp(const N& a, const N& b) { return cmpw(a.w, b.w, 4); }
inline bool operator==(const N& a, const N& b) { return cmp(a, b) == 0; }
inline bool operator!=(const N& a, const N& b) { return cmp(a, b) != 0; }
inline bool operator<(const N& a, const N& b) { return cmp(a, b) < 0; }
inline bool is0(const N& a) { return !(a.w[0] | a.w[1] | a.w[2] | a.w[3]); }
inline int addw(u64* r, const u64* a, const u64* b, int n, int c = 0) { u128 t = c; for (int i = 0; i < n; i++) { t += (u128)a[i] + b[i]; r[i] = (u64)t; t >>= 64; } return (int)t; }
inline int subw(u64* r, const u64* a, const u64* b, int n, int c = 0) { int k = c; for (int i = 0; i < n; i++) { u64 x = a[i], y = b[i]; u64 d = x - y - k; k = (x < y) || (x == y && k); r[i] = d; } return k; }
inline void mulw(u64* r, const u64* a, int na, const u64* b, int nb)
{
    for (int i = 0; i < na + nb; i++) r[i] = 0;
    for (int i = 0; i < na; i++) { u128 c = 0; for (int j = 0; j < nb; j++) { c += (u128)a[i] * b[j] + r[i + j]; r[i + j] = (u64)c; c >>= 64; } r[i + nb] = (u64)c; }
}
inline N add(const N& a, const N& b, int* c = nullptr) { N r; int k = addw(r.w, a.w, b.w, 4); if (c) *c = k; return r; }
inline N sub(const N& a, const N& b, int* c = nullptr) { N r; int k = subw(r.w, a.w, b.w, 4); if (c) *c = k; return r; }
inline N add(const N& a, u64 k) { return add(a, small(k)); }
inline N sub(const N& a, u64 k) { return sub(a, small(k)); }
inline bool bit(const N& a, int i) { return a.w[i >> 6] >> (i & 63) & 1; }
inline N pow2(int i) { N r = zero(); r.w[i >> 6] = (u64)1 << (i & 63); return r; }
inline int bits(const N& a) { for (int i = 255; i >= 0; i--) if (bit(a, i)) return i + 1; return 0; }
// remainder of n words by d (any non-zero d), Knuth algorithm D, quotient optional (n words)
inline N modw(const u64* a, int n, const N& d, u64* q = nullptr)
{
    int m = 4; while (m > 0 && !d.w[m - 1]) m--;
    if (q) for (int i = 0; i < n; i++) q[i] = 0;
    if (m == 0) abort();
    if (m == 1) { u128 r = 0; for (int i = n - 1; i >= 0; i--) { r = r << 64 | a[i]; u64 t = (u64)(r / d.w[0]); if (q) q[i] = t; r -= (u128)t * d.w[0]; } return small((u64)r); }
    u64 u[64], v[4]; int s = __builtin_clzll(d.w[m - 1]);
    for (int i = m - 1; i >= 0; i--) v[i] = d.w[i] << s | (s && i ? d.w[i - 1] >> (64 - s) : 0);
    u[n] = s ? a[n - 1] >> (64 - s) : 0;
    for (int i = n - 1; i >= 0; i--) u[i] = a[i] << s | (s && i ? a[i - 1] >> (64 - s) : 0);
    for (int j = n - m; j >= 0; j--) {
        u128 num = (u128)u[j + m] << 64 | u[j + m - 1], qh, rh;
        if (u[j + m] >= v[m - 1]) { qh = ~(u64)0; rh = num - qh * v[m - 1]; } else { qh = (u64)(num / v[m - 1]); rh = num - qh * v[m - 1]; }
        while (!(rh >> 64) && qh * v[m - 2] > (rh << 64 | u[j + m - 2])) { qh--; rh += v[m - 1]; }
        u64 k = 0; int bo = 0; 
        for (int i = 0; i < m; i++) { u128 p = (u128)(u64)qh * v[i] + k; k = (u64)(p >> 64); u64 x = u[i + j], y = (u64)p; u[i + j] = x - y - bo; bo = (x < y) || (x == y && bo); }
        u64 x = u[j + m]; u[j + m] = x - k - bo; bo = (x < k) || (x == k && bo);
        if (bo) { qh--; u64 c = 0; for (int i = 0; i < m; i++) { u128 t = (u128)u[i + j] + v[i] + c; u[i + j] = (u64)t; c = (u64)(t >> 64); } u[j + m] += c; }
        if (q && j < n) q[j] = (u64)qh;
    }
    N r = zero();
    for (int i = 0; i < m; i++) r.w[i] = u[i] >> s | (s ? u[i + 1] << (64 - s) : 0);
    return r;
}
inline N mod(const N& a, const N& d) { return modw(a.w, 4, d); }
inline N addm(const N& a, const N& b, const N& p) { u64 t[5]; t[4] = addw(t, a.w, b.w, 4); return modw(t, 5, p); }
inline N subm(const N& a, const N& b, const N& p) { return a < b ? sub(p, sub(b, a)) : sub(a, b); } // reduced operands
inline N negm(const N& a, const N& p) { return is0(a) ? a : sub(p, a); }
inline N mulm(const N& a, const N& b, const N& p) { u64 t[8]; mulw(t, a.w, 4, b.w, 4); return modw(t, 8, p); }
inline N powm(const N& a, const N& e, const N& p) { N r = small(1); for (int i = bits(e) - 1; i >= 0; i--) { r = mulm(r, r, p); if (bit(e, i)) r = mulm(r, a, p); } return mod(r, p); }
inline N invm(const N& a, const N& p) { return powm(a, sub(p, 2), p); }
inline N hex(const char* s) { N r = zero(); for (; *s; s++) { if (*s == ' ') continue; int v = *s <= '9' ? *s - '0' : (*s | 32) - 'a' + 10; for (int i = 3; i > 0; i--) r.w[i] = r.w[i] << 4 | r.w[i - 1] >> 60; r.w[0] = r.w[0] << 4 | (u64)v; } return r; }
inline void put(u8* o, const N& a) { for (int i = 0; i < 32; i++) o[31 - i] = (u8)(a.w[i / 8] >> (8 * (i % 8))); }
inline N get(const u8* b) { N r = zero(); for (int i = 0; i < 32; i++) r.w[i / 8] |= (u64)b[31 - i] << (8 * (i % 8)); return r; }
inline mc::Bytes bytes(const N& a) { mc::Bytes b(32); put(b.data(), a); return b; }
inline std::string str(const N& a) { return mc::hex(bytes(a)); }
inline N filler(u64 seed) { N r; mc::fill(r.w, 32, seed); return r; }
inline u64 h(const N& a) { return mc::hash(a.w, 32); }
inline const N& SM2P() { static N x = hex("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF"); return x; }
inline const N& SM2N() { static N x = hex("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123"); return x; }
inline const N& SM9P() { static N x = hex("b640000002a3a6f1d603ab4ff58ec74521f2934b1a7aeedbe56f9b27e351457d"); return x; }
inline const N& SM9N() { static N x = hex("b640000002a3a6f1d603ab4ff58ec74449f2934b18ea8beee56ee19cd69ecf25"); return x; }
// all values whose 64-bit words come from an alphabet
inline std::vector<N> words64(const std::vector<u64>& al)
{
    std::vector<N> r; size_t k = al.size();
    for (size_t i = 0; i < k * k * k * k; i++) r.push_back(N{{al[i % k], al[i / k % k], al[i / k / k % k], al[i / k / k / k]}});
    return r;
}
inline std::vector<N> words32(const std::vector<u32>& al)
{
    std::vector<N> r; size_t k = al.size(), n = 1; for (int i = 0; i < 8; i++) n *= k;
    for (size_t i = 0; i < n; i++) { N x; size_t v = i; for (int j = 0; j < 8; j++) { u64 d = al[v % k]; v /= k; if (j & 1) x.w[j / 2] |= d << 32; else x.w[j / 2] = d; } r.push_back(x); }
    return r;
}
inline void neighbours(std::vector<N>& v, const N& c, int d) { for (int i = -d; i <= d; i++) v.push_back(i < 0 ? sub(c, (u64)-i) : add(c, (u64)i)); }
inline void uniq(std::vector<N>& v) { std::vector<N> r; std::set<std::string> s; for (auto& x : v) if (s.insert(std::string((const char*)x.w, 32)).second) r.push_back(x); v = r; }
} // namespace rn
