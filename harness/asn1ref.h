// Independent reading of X.690 definite-length encodings.
#pragma once
#include "mc.h"
#include <gmlib/asn1/asn1.h>
#include <gmlib/asn1/asn1_dump.h>
namespace ar {
using mc::Bytes; using u8 = uint8_t; using u64 = uint64_t;
struct Tlv { int cls = 0, con = 0, num = 0; size_t hdr = 0, len = 0; };
// 0 complete value, -1 truncated, -2 outside the supported subset (high tag numbers, indefinite length, more than 8 length octets)
inline int tlv(Tlv& t, const u8* in, size_t n)
{
    if (n < 1) return -1;
    t.cls = in[0] >> 6; t.con = in[0] >> 5 & 1; t.num = in[0] & 31;
    if (t.num == 31) return -2;
    if (n < 2) return -1;
    if (in[1] < 128) { t.hdr = 2; t.len = in[1]; }
    else {
        size_t k = in[1] - 128; if (k == 0 || k > 8) return -2;
        if (n - 2 < k) return -1;
        u64 v = 0; for (size_t i = 0; i < k; i++) v = v * 256 + in[2 + i];
        t.hdr = 2 + k; t.len = v;
    }
    return t.len <= n - t.hdr ? 0 : -1;
}
enum { NO, YES, FREE };     // must be refused, must be accepted with this value, either (value inside the input)
struct Val { int verdict = NO; bool b = false; size_t off = 0, len = 0, bits = 0, used = 0; };
inline Val typed(int num, const u8* in, size_t n)
{
    Val v; Tlv t; if (tlv(t, in, n) || t.cls != 0 || t.num != num) return v;
    const u8* c = in + t.hdr; v.off = t.hdr; v.len = t.len; v.used = t.hdr + t.len;
    switch (num) {
    case 1: if (t.con || t.len != 1) return v; v.b = c[0] != 0; break;
    case 2: if (t.con || t.len == 0) return v;
        if (t.len > 1 && ((c[0] == 0 && c[1] < 128) || (c[0] == 255 && c[1] >= 128))) return v;
        if (c[0] >= 128) { v.verdict = FREE; return v; }                       // negative: the interface has no sign
        if (t.len > 1 && c[0] == 0) v.off++, v.len--;
        break;
    case 3: if (t.con) { v.verdict = FREE; return v; } if (t.len == 0 || c[0] > 7 || (t.len == 1 && c[0])) return v; v.bits = 8 * (t.len - 1) - c[0]; v.off++; v.len--; break;
    case 4: if (t.con) { v.verdict = FREE; return v; } break;
    case 5: if (t.con || t.len) return v; break;
    default: if (!t.con) return v;
    }
    v.verdict = YES; return v;
}
inline bool nested_ok(const u8* in, size_t n, int depth, int& maxd)
{
    if (depth > maxd) maxd = depth;
    while (n) { Tlv t; if (tlv(t, in, n)) return false; if (t.con && !nested_ok(in + t.hdr, t.len, depth + 1, maxd)) return false; in += t.hdr + t.len; n -= t.hdr + t.len; }
    return true;
}
// DER writing
inline void header(Bytes& o, int tag, size_t len)
{
    o.push_back((u8)tag);
    if (len < 128) { o.push_back((u8)len); return; }
    int k = 0; for (size_t x = len; x; x >>= 8) k++;
    o.push_back((u8)(128 + k)); for (int i = k - 1; i >= 0; i--) o.push_back((u8)(len >> (8 * i)));
}
inline size_t header_size(size_t len) { Bytes b; header(b, 0, len); return b.size(); }
inline Bytes content_int(const Bytes& v) { size_t i = 0; while (i < v.size() && v[i] == 0) i++; Bytes c; if (i == v.size() || v[i] >= 128) c.push_back(0); c.insert(c.end(), v.begin() + i, v.end()); return c; }
inline Bytes tlv_of(int tag, const Bytes& c) { Bytes o; header(o, tag, c.size()); o.insert(o.end(), c.begin(), c.end()); return o; }
inline void app(Bytes& a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); }
} // namespace ar
