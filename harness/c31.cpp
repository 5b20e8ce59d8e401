// C31: the text memdump and asn1_dump print, against an independent writer.
#include "asn1ref.h"
#include <gmlib/memory_utils/memdump.h>
#include <stdio.h>
using namespace ar; using namespace mc; using mc::Bytes; using std::string;
struct Cap {
    char* buf = nullptr; size_t n = 0; FILE* save;
    Cap() { fflush(stdout); save = stdout; stdout = open_memstream(&buf, &n); if (!stdout) _exit(90); }
    string end() { fclose(stdout); stdout = save; string s(buf, n); free(buf); return s; }
};
static string fmt(const char* f, int v) { char b[200]; int n = snprintf(b, sizeof b, f, v); return string(b, n); }
static string want(const u8* d, size_t n, size_t ml, const char* f, bool asc, const char* sep, const char* pre, const char* end)
{
    string o = pre ? pre : ""; f = f ? f : "%02x"; sep = sep ? sep : " "; size_t width = 0;
    for (size_t i = 0; i < n; i += ml) {
        size_t m = n - i < ml ? n - i : ml; string l; for (size_t j = 0; j < m; j++) l += fmt(f, d[i + j]) + sep;
        if (m == ml) width = l.size(); else while (l.size() < width) l += ' ';
        if (asc) { l += "   "; for (size_t j = 0; j < m; j++) l += d[i + j] >= 32 && d[i + j] < 127 ? (char)d[i + j] : '.'; }
        if (i) o += '\n'; o += l;
    }
    return o + (end ? end : "");
}
static void same(const char* key, const string& g, const string& w)
{
    eval(); if (g == w) return; size_t i = 0; while (i < g.size() && i < w.size() && g[i] == w[i]) i++;
    size_t a = i > 20 ? i - 20 : 0; fail(key, "printed %zu characters, expected %zu; first difference at %zu: printed \"%s\", expected \"%s\"", g.size(), w.size(), i, g.substr(a, 60).c_str(), w.substr(a, 60).c_str());
}
static void one(const u8* d, size_t n, size_t ml, const char* f, bool asc, const char* sep, const char* pre, const char* end)
{
    Cap c; memory_utils::memdump(d, n, ml, f, asc, sep, pre, end); string g = c.end(); same("memdump", g, want(d, n, ml, f, asc, sep, pre, end));
}
static const char* const F[] = {nullptr, "%02x", "%02X", "0x%02x", "%3d", "%03o"}; static const char* const S[] = {nullptr, " ", "", ", ", "%%s%d%n", ":"}; static const char* const PE[][2] = {{"", "\n"}, {nullptr, nullptr}, {"data: ", ""}, {"%s%x%n", "%d%%\n"}, {"a\n", "\n\n"}};
// every size and line length, with the arguments left out and given
SCENARIO("shapes", 260, [](long n) {
    Tight t(n); u8* d = t.set(filled(n, 3));
    for (size_t ml = 1; ml <= 70; ml++) for (int asc = 0; asc < 2; asc++) { at("%ld bytes, %ld per line, characters %ld", n, ml, asc); state(hashv(1, n, ml, asc)); one(d, n, ml, nullptr, asc, nullptr, "", "\n");
        { Cap c; if (asc) { if (ml == 16) memory_utils::memdump(d, n); else memory_utils::memdump(d, n, ml); } else memory_utils::memdump(d, n, ml, "%02x", false); same("defaults", c.end(), want(d, n, ml, "%02x", asc, " ", "", "\n")); } }
    for (size_t ml : {(size_t)n, (size_t)n + 1, (size_t)100000, (size_t)1 << 32, ~(size_t)0}) if (ml) { at("%ld bytes, %lu per line", n, ml); one(d, n, ml, nullptr, true, nullptr, "", "\n"); state(hashv(1, n, ml, 2)); }
    if (n == 37) sample("37 bytes with 1..70 items per line: %s", want(d, 5, 3, "%02x", true, " ", "", "\\n").c_str()); })
// every format, separator, prefix and end
SCENARIO("arguments", 50, [](long n) {
    Tight t(n); u8* d = t.set(filled(n, 8));
    for (size_t ml : {1, 2, 3, 4, 7, 8, 15, 16, 17, 24, 32}) for (auto f : F) for (auto s : S) for (auto& pe : PE) for (int asc = 0; asc < 2; asc++) { at("%ld bytes, %ld per line", n, ml); one(d, n, ml, f, asc, s, pe[0], pe[1]); state(hashv(2, n, ml, (long)(f ? hash(f, strlen(f)) : 0), (long)(s ? hash(s, strlen(s)) : 0), (long)(&pe - PE), asc)); } })
// every byte value at every column, in full and short lines
SCENARIO("values", 256, [](long v) {
    Tight t(40); for (size_t n = 1; n <= 40; n += n < 34 ? 1 : 3) for (size_t i = 0; i < n; i++) { u8* d = t.set(n); for (size_t j = 0; j < n; j++) d[j] = (u8)(v + 97 * (j + 40 - i) + (j == i ? 0 : 1)); d[i] = (u8)v; at("value %ld at %ld of %ld", v, i, n); one(d, n, 16, nullptr, true, nullptr, "", "\n"); if (n < 12) one(d, n, 4, "%02X", true, "", "<", ">"); state(hashv(3, v, n, i)); } })
// long ones, and two in a row
SCENARIO("long", 12, [](long k) {
    for (int d : {-1, 0, 1}) { size_t n = ((size_t)1 << (8 + k)) + d; Bytes b = filled(n, 1 + d); at("%ld bytes", n); tick(); one(b.data(), n, k % 2 ? 16 : 33, nullptr, d != 0, nullptr, "", "\n");
        Cap c; memory_utils::memdump(b.data(), 7); memory_utils::memdump(b.data() + 3, 33, 16, "%02x", true, ","); memory_utils::memdump(b.data(), 0); same("sequence", c.end(), want(b.data(), 7, 16, 0, true, " ", "", "\n") + want(b.data() + 3, 33, 16, 0, true, ",", "", "\n") + "\n"); state(hashv(4, n)); } })
// ---- asn1_dump
static const char* TYPE(int n) { static const char* const N[31] = {"END_OF_CONTENTS", "BOOLEAN", "INTEGER", "BIT_STRING", "OCTET_STRING", "NULL", "OBJECT_IDENTIFIER", "OBJECT_DESCRIPTOR", "EXTERNAL", "REAL", "ENUMERATED", 0, "UTF8_STRING", 0, 0, 0, "SEQUENCE", "SET", "NUMERIC_STRING", "PRINTABLE_STRING", "TELETEX_STRING", "VIDEOTEX_STRING", "IA5_STRING", "UTC_TIME", "GENERALIZED_TIME", "GRAPHIC_STRING", "VISIBLE_STRING", "GENERAL_STRING", "UNIVERSAL_STRING", 0, "BMP_STRING"}; const char* r = n < 31 ? N[n] : nullptr; return r ? r : "UNKNOWN"; }
static void text(string& o, const u8* in, size_t n, size_t depth)
{
    static const char* const C[] = {"UNIVERSAL", "APPLICATION", "CONTEXT_SPECIFIC", "PRIVATE"};
    while (n) {
        Tlv t; if (tlv(t, in, n)) return; o.append(3 * depth, ' '); for (size_t i = 0; i < t.hdr; i++) o += fmt("%02x ", in[i]); for (size_t i = t.hdr; i < 9; i++) o += "   ";
        o += string(";  ") + TYPE(t.num) + "(length = " + std::to_string(t.len) + " Bytes," + C[t.cls] + "," + (t.con ? "CONSTRUCTED" : "PRIMITIVE") + ")\n"; const u8* c = in + t.hdr;
        if (t.con) text(o, c, t.len, depth + 1); else for (size_t i = 0; i < t.len; i++) { if (i % 8 == 0) o.append(3 * (depth + 1), ' '); o += fmt("%02x ", c[i]); if (i % 8 == 7 || i + 1 == t.len) o += '\n'; }
        in += t.hdr + t.len; n -= t.hdr + t.len;
    }
}
static void dump(const Bytes& b)
{
    int d = 0; if (!nested_ok(b.data(), b.size(), 0, d) || d > 64) return; Tight t(b.size()); u8* p = t.set(b);
    Cap c; int r = asn1::asn1_dump(p, b.size()); string g = c.end(), w; text(w, b.data(), b.size(), 0); if (r) fail("asn1", "%s: returns %d", hex(b).substr(0, 80).c_str(), r); same("asn1", g, w); state(hash(b.data(), b.size(), 5));
}
static Bytes el(int tag, const Bytes& c, int k = 0) { Bytes o; if (!k) header(o, tag, c.size()); else { o = {(u8)tag, (u8)(128 + k)}; for (int i = k - 1; i >= 0; i--) o.push_back((u8)((uint64_t)c.size() >> (8 * i))); } o.insert(o.end(), c.begin(), c.end()); return o; }
// every tag octet with every content length, alone, inside and next to others
SCENARIO("asn1 elements", 256, [](long tag) {
    if ((tag & 31) == 31) return;
    for (size_t len = 0; len <= 300; len += len < 70 || (len > 120 && len < 134) || (len > 250 && len < 262) ? 1 : 7) for (int k = 0; k <= 8; k++) {
        if (k == 1 && len > 255) continue; if (k > 2 && len > 40) continue; at("tag %02lx, length %ld in form %ld", tag, len, k); tick(); Bytes c; if (tag & 32) { if (len == 1) continue; while (c.size() < len) { size_t m = len - c.size(); m = m == 1 ? 0 : m == 2 ? 0 : m > 20 ? 11 : m - 2; if (len - c.size() - 2 - m == 1) m--; if (c.size() + 2 + m > len) break; app(c, el(0x80 | (int)(tag & 7), filled(m, 7))); } if (c.size() != len) continue; } else c = filled(len, 2);
        Bytes e = el((int)tag, c, k); dump(e); Bytes s = e; app(s, el(2, {5})); app(s, e); dump(s); dump(el(0x30, s)); Bytes q = el(0x31, el(0xa0, s)); app(q, el(5, {})); dump(q); }
    if (tag == 0x30) sample("every tag octet x content length 0..300 in up to nine length forms, alone and in three surroundings"); })
// every tree of up to a number of elements: each step puts a leaf after, wraps, or does both
SCENARIO("asn1 trees", 81, [](long it) {
    for (long s = it; s < 6561 * (thorough() ? 9 : 1); s += 81) { Bytes cur; long x = s; int st = 0; for (; x || st < 4; st++, x /= 3) { int o = (int)(x % 3); if (o == 0) app(cur, el(st & 1 ? 4 : 0x86, filled((size_t)st * 3 % 10, st))); else if (o == 1) cur = el(st & 1 ? 0x30 : 0xa3, cur); else { Bytes n = el(0x31, cur, 1 + st % 3); if (cur.size() > 255) n = el(0x31, cur); app(n, el(2, filled(st % 4 + 1, 9))); cur = n; } } at("tree %ld", s); dump(cur); } })
SCENARIO("asn1 depth", 65, [](long d) { for (size_t leaf : {0, 1, 7, 8, 9, 16, 100, 130}) { Bytes b = el(4, filled(leaf, 3)); for (long i = 0; i < d && i < 64; i++) b = el(i % 3 ? 0x30 : 0xa1, b); at("depth %ld, leaf %ld", d, leaf); dump(b); } })
MC_MAIN
