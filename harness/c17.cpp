// C17: SM2 encryption and decryption under scripted random numbers and forced key streams.
#include "longsm.h"
#include <gmlib/sm2/sm2.h>
#include <gmlib/sm3/sm3.h>
using namespace sm2r;
template <> struct sm2r::HashOf<sm3::SM3> { static Bytes eval(const Bytes& b) { return refsm3::sm3(b); } };
static ::sm2::SM2EcPC pc(int f) { return f == UNC ? ::sm2::SM2EcPC::UNCOMPRESSED : f == COM ? ::sm2::SM2EcPC::COMPRESSED : ::sm2::SM2EcPC::MIX; }
static std::vector<N> keys() { const N n = SM2N(); return {small(1), small(2), sub(n, 2), filler(31), pow2(200)}; }
template <class H> struct Env {
    N d; Pt P; ::sm2::SM2PrivateKey<H> k; ::sm2::SM2PublicKey<H> pk;
    explicit Env(const N& d_) : d(d_), P(sm2c().mulg(d_)) { u8 b[64]; rn::put(b, d); k.set_priv(b); rn::put(b, P.x); rn::put(b + 32, P.y); pk.set_pub(b, b + 32); }
};
// does the library decrypt, and to what; on exact buffers
template <class H> static bool lib_dec(const ::sm2::SM2PrivateKey<H>& k, const Bytes& ct, Bytes& m, mc::Tight& C, mc::Tight& O)
{
    mc::eval(); C.set(ct); C.g.ro(true); struct Un { mc::Tight& t; ~Un() { t.g.ro(false); } } un{C};
    size_t pl;
    try { pl = k.plaintext_len(C.p, ct.size()); } catch (std::exception&) { // then decrypt must refuse as well
        O.set(1); size_t o = 0; try { k.decrypt(O.p, &o, C.p, ct.size()); } catch (std::exception&) { return false; }
        mc::fail("reject", "decrypt accepts what plaintext_len refuses"); }
    if (pl > ct.size()) mc::fail("length", "plaintext_len returns %zu for a ciphertext of %zu bytes", pl, ct.size());
    O.set(pl); size_t o = 999;
    try { k.decrypt(O.p, &o, C.p, ct.size()); } catch (std::exception&) { if (!O.ok()) mc::fail("bounds", "a refused decryption wrote before the plaintext"); return false; }
    if (!O.ok()) mc::fail("bounds", "decryption wrote before the plaintext");
    if (o != pl) mc::fail("length", "decrypt reports %zu bytes, plaintext_len %zu", o, pl);
    m.assign(O.p, O.p + o); return true;
}
// encrypt with the script and compare; then decrypt
template <class H> static Bytes enc_case(const Env<H>& E, const Bytes& m, int fmt, const std::vector<N>& words, const char* what, bool via_priv, mc::Tight& M, mc::Tight& C, bool back = true)
{
    std::vector<N> ks; for (auto& w : words) ks.push_back(draw(w, sub(SM2N(), 1)));
    int tries; Bytes want = encrypt<H>(E.P, m, fmt, ks, &tries); if (tries < 0) { fprintf(stderr, "script without an acceptable number\n"); _exit(90); }
    ScriptRng r; for (auto& w : words) r.push(w);
    M.set(m); size_t n = ::sm2::SM2PublicKey<H>::ciphertext_len(M.p, m.size(), pc(fmt)); if (n != want.size() || ::sm2::SM2PrivateKey<H>::ciphertext_len(M.p, m.size(), pc(fmt)) != n) mc::fail("length", "%s: ciphertext_len is %zu, the standard's ciphertext has %zu bytes", what, n, want.size());
    C.set(n); size_t o = 0;
    try { if (via_priv) E.k.encrypt(C.p, &o, M.p, m.size(), r, pc(fmt)); else if (fmt == UNC && n % 2) E.pk.encrypt(C.p, &o, M.p, m.size(), r); else E.pk.encrypt(C.p, &o, M.p, m.size(), r, pc(fmt)); }
    catch (RanOut&) { mc::fail("retry", "%s: encryption rejects a random number the standard accepts (draw %d)", what, tries); }
    mc::eval(); mc::trace(); mc::trans(words.size()); mc::state(mc::hashv(mc::hash(C.p, n), tries, fmt));
    if (o != n) mc::fail("length", "%s: encrypt reports %zu bytes, announced %zu", what, o, n);
    if (memcmp(C.p, want.data(), n)) { size_t i = 0; while (C.p[i] == want[i]) i++; mc::fail("ciphertext", "%s: %zu-byte message, format %d: first difference at byte %zu of %zu (draw %d of the script is the acceptable one)", what, m.size(), fmt, i, n, tries); }
    if (r.asked != (size_t)tries * 32) mc::fail("draws", "%s: %zu random bytes drawn, expected %d", what, r.asked, tries * 32);
    if (!M.ok() || !C.ok() || (m.size() && memcmp(M.p, m.data(), m.size()))) mc::fail("bounds", "%s: wrote outside the ciphertext", what);
    if (back) { Bytes p; mc::Tight O(m.size() + 1); if (!lib_dec(E.k, want, p, C, O)) mc::fail("roundtrip", "%s: decryption refuses a genuine ciphertext (%zu bytes, format %d)", what, m.size(), fmt); if (p != m) mc::fail("roundtrip", "%s: decryption returns another plaintext (%zu bytes)", what, m.size()); }
    return want;
}
template <class H> static void lens(long len, N d, long seed) { Env<H> E(d); mc::Tight M(len + 1), C(len + 200); for (int f = 0; f < 3; f++) enc_case<H>(E, mc::filled(len, len), f, {filler(seed + f), filler(seed + 9)}, "message length", (len + f) & 1, M, C); }
SCENARIO("lengths", 220, [](long n) { mc::at("%ld bytes", n); lens<ForcedHash<32>>(n, keys()[n % 5], n); if (n < 100) { lens<ForcedHash<20>>(n, keys()[n % 5], n); lens<ForcedHash<48>>(n, filler(31), n); lens<ForcedHash<64, 128>>(n, filler(31), n); lens<ForcedHash<1>>(n, filler(31), n); } if (n % 9 == 0) lens<sm3::SM3>(n, filler(31), n); if (n == 33) mc::sample("messages of %ld bytes, three formats, 5 digest sizes", n); })
// past 255 and 65535 key-stream blocks
static std::vector<long> big() { std::vector<long> v; for (long b : {254, 255, 256, 257, 258}) for (long k : {-1, 0, 1}) v.push_back(b * 32 + k); for (long b : {511, 512, 513, 1024}) v.push_back(b * 32 + 5); return v; }
SCENARIO("blocks255", [] { return (long)big().size(); }, [](long it) { mc::at("%ld bytes", big()[it]); lens<ForcedHash<32>>(big()[it], filler(31), it); })
SCENARIO("blocks65535", 9, [](long it) { long b = 65533 + it % 5 + (it >= 5 ? 65536 : 0); mc::at("%ld blocks", b); Env<ForcedHash<4>> E(filler(31)); mc::Tight M(4 * b + 8), C(4 * b + 200); enc_case<ForcedHash<4>>(E, mc::filled(4 * b + it % 3 - 1, it), (int)it % 3, {filler(it)}, "key stream of more than 65535 blocks", false, M, C); })
SCENARIO("sm3big", 4, [](long it) { static const long L[] = {8159, 8160, 8161, 8193}; mc::at("%ld bytes", L[it]); lens<sm3::SM3>(L[it], filler(31), it); })
// forced key streams: per random number, which blocks of the key stream are zero
typedef ForcedHash<8> H8;
struct Zero { Bytes z; u32 mask; int last; }; // mask: block i zero; last>=0: of block `last` only the first octets used by the message are zero
static Hook force(const std::vector<Zero>& zs, size_t used) { return [zs, used](const Bytes& x, u8* o, size_t n) {
    if (x.size() != 68) return false;
    for (auto& s : zs) if (!memcmp(x.data(), s.z.data(), 64)) { u32 ct = (u32)x[64] << 24 | x[65] << 16 | x[66] << 8 | x[67]; if (ct < 1 || ct > 30) return false; int i = ct - 1; if (s.mask >> i & 1) { memset(o, 0, n); return true; } if (i == s.last) { memset(o, 0x5c, n); memset(o, 0, used); return true; } return false; }
    return false; }; }
static Bytes zof(const Pt& P, const N& k) { Pt S = sm2c().mul(k, P); Bytes z = rn::bytes(S.x); cat(z, S.y); return z; }
// all block patterns for one number, followed by an accepted one
SCENARIO("zeropatterns", 41 * 3, [](long it) {
    long len = it / 3; int f = (int)(it % 3), nb = (int)((len + 7) / 8); size_t tail = len % 8 ? len % 8 : 8; Env<H8> E(filler(31)); N k = filler(41); N w = word_for(mod(k, SM2N())); Bytes z = zof(E.P, mod(k, SM2N())); mc::Tight M(len + 1), C(len + 200);
    for (u32 mask = 0; mask < 1u << nb; mask++) for (int part = 0; part < 2; part++) {
        // part: the last block is zero only in the octets the message uses (counts as zero)
        Zero s = {z, mask, -1}; if (part) { if (!nb || !(mask >> (nb - 1) & 1)) continue; s.mask &= ~(1u << (nb - 1)); s.last = nb - 1; }
        WithHook h(force({s}, tail)); mc::at("%ld bytes format %ld zero blocks %lx partial %ld", len, f, mask, part);
        enc_case<H8>(E, mc::filled(len, 3), f, {w, filler(42), filler(43)}, "zero blocks in the key stream", false, M, C);
    }
    // one octet of the key stream not zero: accepted
    for (long b = 0; b < len; b++) {
        Bytes zz = z; size_t at = b; WithHook h([zz, at](const Bytes& x, u8* o, size_t n) { if (x.size() != 68 || memcmp(x.data(), zz.data(), 64)) return false; u32 ct = (u32)x[64] << 24 | x[65] << 16 | x[66] << 8 | x[67]; memset(o, 0, n); if ((ct - 1) * n <= at && at < ct * n) o[at - (ct - 1) * n] = 1; return true; });
        mc::at("%ld bytes format %ld only octet %ld not zero", len, f, b); enc_case<H8>(E, mc::filled(len, 3), f, {w, filler(42)}, "one non-zero octet in the key stream", false, M, C);
    }
    if (it == 50) mc::sample("%ld-byte message: all %d patterns of zero key-stream blocks", len, 1 << nb); })
// all scripts of rejected and accepted numbers
SCENARIO("scripts", 12, [](long it) {
    long len = (long[]){1, 7, 8, 20}[it / 3]; int f = (int)(it % 3), depth = mc::thorough() ? 6 : 4; Env<H8> E(filler(31)); mc::Tight M(len + 1), C(len + 200); N n = SM2N();
    std::vector<N> bad = {small(1), filler(41), sub(n, 1)}; std::vector<Zero> zs; std::vector<N> al; for (auto& k : bad) { zs.push_back({zof(E.P, mod(k, n)), 0xffffffff, -1}); al.push_back(word_for(mod(k, n))); } al.push_back(word_for(small(2))); al.push_back(filler(55));
    { int c; N x = add(al[0], sub(n, 1), &c); if (!c) al.push_back(x); }
    WithHook h(force(zs, 8)); long L = al.size(), total = 1; for (int i = 0; i < depth; i++) total *= L;
    for (long s = 0; s < total; s++) {
        std::vector<N> w; bool acc = false, skip = false; for (long v = s, i = 0; i < depth; i++, v /= L) { if (acc && v % L) skip = true; w.push_back(al[v % L]); if (v % L == 3 || v % L == 4) acc = true; }
        if (skip) continue; w.push_back(filler(56)); mc::at("%ld bytes format %ld script %ld", len, f, s); enc_case<H8>(E, mc::filled(len, 4), f, w, "retry script", s & 1, M, C);
    } })
SCENARIO("longretry", 2, [](long it) { Env<H8> E(filler(31)); mc::Tight M(64), C(300); N k = small(3); WithHook h(force({{zof(E.P, k), 0xffffffff, -1}}, 8)); std::vector<N> w(it ? 300 : 40, word_for(k)); w.push_back(filler(1)); mc::at("run %ld", it); enc_case<H8>(E, mc::filled(11, 1), COM, w, "long run of rejected numbers", false, M, C); })
// nonces at the edges
SCENARIO("nonces", 5 * 24, [](long it) {
    Env<ForcedHash<32>> E(keys()[it / 24]); mc::Tight M(64), C(300); const N n = SM2N(); long j = it % 24; N w = j < 6 ? small(j) : j < 12 ? add(sub(n, 4), j - 6) : j < 16 ? sub(zero(), j - 11) : pow2((int)(j - 16) * 32 + 31);
    for (int f = 0; f < 3; f++) { mc::at("key %ld word %ld format %ld", it / 24, j, f); enc_case<ForcedHash<32>>(E, mc::filled(19, j), f, {w, filler(1)}, "edge random word", false, M, C); } })
// --- decryption of altered ciphertexts: the library decides exactly as the standard ---
template <class H> static void judge(const Env<H>& E, const Bytes& ct, const char* what, mc::Tight& C, mc::Tight& O)
{
    Bytes a, b; bool want = decrypt<H>(a, E.d, ct), got = lib_dec(E.k, ct, b, C, O); mc::state(mc::hash(ct.data(), ct.size(), 5));
    if (want != got) mc::fail(want ? "refused" : "accepted", "%s: ciphertext of %zu bytes %s: library %s it", what, ct.size(), mc::hex(ct).c_str(), got ? "accepts" : "refuses");
    if (want && a != b) mc::fail("plaintext", "%s: wrong plaintext", what);
}
template <class H> static void tamper(long it, const N& d)
{
    Env<H> E(d); int f = (int)(it % 3); long len = (long[]){0, 1, 5, 33}[it / 3 % 4]; mc::Tight C(400), O(400), M(100), C2(400); Bytes m = mc::filled(len, it);
    Bytes ct = enc_case<H>(E, m, f, {filler(60 + it), filler(61)}, "genuine", false, M, C2); judge(E, ct, "genuine", C, O);
    for (size_t i = 0; i < ct.size(); i++) {
        bool every = i == 0 || mc::thorough(); size_t hdr = f == COM ? 33 : 65;
        if (every) for (int v = 1; v < 256; v++) { Bytes x = ct; x[i] ^= (u8)v; mc::at("byte %ld xor %ld", i, v); judge(E, x, "one byte changed", C, O); }
        else for (int b = 0; b < 8; b++) { if (i < hdr && (b + i) % 3) continue; Bytes x = ct; x[i] ^= (u8)(1 << b); mc::at("byte %ld bit %ld", i, b); judge(E, x, "one bit changed", C, O); }
        Bytes x = ct; x[i] = 0; judge(E, x, "byte set to 0", C, O); x[i] = 0xff; judge(E, x, "byte set to 255", C, O);
        mc::at("cut at %ld", i); judge(E, Bytes(ct.begin(), ct.begin() + i), "truncated", C, O);
        if (i) judge(E, Bytes(ct.begin() + i, ct.end()), "front removed", C, O);
        x = ct; x.erase(x.begin() + i); judge(E, x, "one byte removed", C, O); x = ct; x.insert(x.begin() + i, (u8)0); judge(E, x, "one byte inserted", C, O);
        if (i) { x = ct; std::swap(x[i], x[i - 1]); judge(E, x, "two bytes swapped", C, O); }
    }
    for (int k = 1; k < 40; k++) { Bytes x = ct; x.resize(ct.size() + k, (u8)(k & 1 ? 0 : 0x5a)); mc::at("extended by %ld", k); judge(E, x, "extended", C, O); }
    // the same point in the other formats (valid by the standard), with right and wrong parity, -P, other points
    Pt P1; size_t n; dec(sm2c(), P1, n, ct); Bytes rest(ct.begin() + n, ct.end()), rest2 = rest; size_t ds = rest.size() - len;
    for (int g = 0; g < 3; g++) for (int neg = 0; neg < 2; neg++) for (int par = 0; par < 2; par++) { Bytes x = enc(neg ? sm2c().neg(P1) : P1, g); if (par) x[0] ^= 1; cat(x, rest); mc::at("format %ld negated %ld parity %ld", g, neg, par); judge(E, x, "re-encoded point", C, O); }
    // C1||C2||C3 order, empty hash, doubled hash
    { Bytes x(ct.begin(), ct.begin() + n); x.insert(x.end(), rest.begin() + ds, rest.end()); x.insert(x.end(), rest.begin(), rest.begin() + ds); if (len) judge(E, x, "C1 C2 C3 order", C, O); }
    // decryption with other keys
    for (N k : {small(1), small(3), sub(SM2N(), 2)}) { Env<H> F(k); judge(F, ct, "other key", C, O); }
}
SCENARIO("tamper", 12, [](long it) { mc::ctx("case %ld", it); tamper<ForcedHash<32>>(it, filler(31)); })
SCENARIO("tampersize", 12, [](long it) { mc::ctx("case %ld", it); if (it % 3 == 0) tamper<ForcedHash<20>>(it, small(2)); else if (it % 3 == 1) tamper<ForcedHash<64, 128>>(it, sub(SM2N(), 2)); else tamper<sm3::SM3>(it, filler(31)); })
// off-curve and out-of-range points in the ciphertext whose hash and data would be right for a careless decoder
SCENARIO("points", 256, [](long it) {
    Env<ForcedHash<32>> E(filler(31)); mc::Tight C(400), O(400); const Curve& c = sm2c(); std::vector<Pt> ps; N y;
    if (it < 40) { if (c.lift(y, small(it), it & 1)) { ps.push_back(pt(small(it), y)); } } else if (it < 80) { N x = sub(c.p, it - 39); if (c.lift(y, x, it & 1)) ps.push_back(pt(x, y)); } else ps.push_back(c.mulg(small(it)));
    ps.push_back(pt(hex("9c17043effe1a805a74a9a5e70b9d659705d3242094a566dc016f49311178d1f"), small(1)));
    for (auto& P : ps) {
        // correct C3 and C2 for this point: must be accepted in every format
        Pt S = c.mul(E.d, P); Bytes m = {1, 2, 3}, z = rn::bytes(S.x); cat(z, S.y); Bytes t = kdf<ForcedHash<32>>(z, 3), hin = rn::bytes(S.x); cat(hin, m); cat(hin, S.y); Bytes rest = HashOf<ForcedHash<32>>::eval(hin); for (int i = 0; i < 3; i++) rest.push_back(m[i] ^ t[i]);
        for (int f = 0; f < 3; f++) { Bytes x = enc(P, f); cat(x, rest); mc::at("point %ld format %ld", it, f); judge(E, x, "crafted point", C, O);
            Bytes q = x; q[0] ^= 1; judge(E, q, "crafted point, wrong parity", C, O);
            int cy; N v = add(P.x, c.p, &cy); if (!cy) { q = x; rn::put(&q[1], v); judge(E, q, "x+p", C, O); } v = add(P.y, c.p, &cy); if (!cy && f != COM) { q = x; rn::put(&q[33], v); judge(E, q, "y+p", C, O); q[0] ^= 1; judge(E, q, "y+p, other parity", C, O); }
            q = x; q[1 + it % 32] ^= (u8)(1 << it % 8); judge(E, q, "x changed", C, O); if (f != COM) { q = x; q[33 + it % 32] ^= (u8)(1 << it % 8); judge(E, q, "y changed", C, O); } }
    } })
// all-zero key stream on the decrypting side is refused; partly zero is not
SCENARIO("zerodec", 33, [](long len) {
    Env<H8> E(filler(31)); mc::Tight C(400), O(400); const Curve& c = sm2c(); N k = filler(77); k = mod(k, SM2N()); Bytes z = zof(E.P, k); int nb = (int)((len + 7) / 8); Bytes m = mc::filled(len, 5);
    for (u32 mask = 0; mask < 1u << nb; mask++) { WithHook h(force({{z, mask, -1}}, 8)); Bytes t = kdf<H8>(z, len), x = enc(c.mulg(k), COM), hin(z.begin(), z.begin() + 32); cat(hin, m); hin.insert(hin.end(), z.begin() + 32, z.end()); cat(x, HashOf<H8>::eval(hin)); for (long i = 0; i < len; i++) x.push_back(m[i] ^ t[i]); mc::at("%ld bytes zero blocks %lx", len, mask); judge(E, x, "zero key-stream blocks", C, O); } })
// every first byte and every length
SCENARIO("garbage", 256, [](long b) {
    Env<ForcedHash<32>> E(filler(31)); mc::Tight C(400), O(400);
    for (int len = 0; len < 170; len++) { if (!len && b) continue; for (int s = 0; s < 2; s++) { Bytes x = mc::filled(len, b + s * 1000); if (s) std::fill(x.begin(), x.end(), 0); if (len) x[0] = (u8)b; mc::at("first byte %ld length %ld", b, len); judge(E, x, "arbitrary bytes", C, O); } } })
// one object: encryptions and decryptions interleaved, failed decryptions leave no trace
SCENARIO("sequence", 81, [](long it) {
    Env<ForcedHash<32>> E(filler(31)); mc::Tight C(400), O(400), M(100), C2(400); long v = it;
    for (int i = 0; i < 4; i++, v /= 3) { mc::at("sequence %ld step %ld", it, i); Bytes ct = enc_case<ForcedHash<32>>(E, mc::filled(10 + i, i), i % 3, {filler(900 + i)}, "sequence", i & 1, M, C2); if (v % 3 == 1) { ct[40] ^= 1; judge(E, ct, "sequence, altered", C, O); } else if (v % 3 == 2) { ct.resize(30); judge(E, ct, "sequence, truncated", C, O); } } mc::trace(); })
// --- messages of any length --------------------------------------------------
template <class H> static void longenc(long it, size_t n)
{
    Env<H> E(filler(31)); const size_t DS = H::DIGEST_SIZE; const u8* p = lng::data() + it % 91; N k = draw(filler(it + 40), sub(SM2N(), 1)); int f = (int)(it % 3); Pt S = sm2c().mul(k, E.P); Bytes x2 = rn::bytes(S.x), y2 = rn::bytes(S.y); mc::at("message of %ld octets", n);
    Bytes want = enc(sm2c().mulg(k), f); cat(want, lng::eval(DS, {x2, {p, n}, y2})); size_t hd = want.size(); mc::Tight C(n + hd), O(n); C.set(n + hd); O.set(n); ScriptRng r; r.push(filler(it + 40)); size_t cl = 0, pl = 0;
    if (E.pk.ciphertext_len(p, n, pc(f)) != n + hd) mc::fail("length", "ciphertext_len for %zu octets", n); E.pk.encrypt(C.p, &cl, p, n, r, pc(f)); mc::eval(); mc::trace(); mc::state(mc::hashv(0x90, n, DS)); if (cl != n + hd || memcmp(C.p, want.data(), hd)) mc::fail("ciphertext", "message of %zu octets: point or hash", n);
    u32 ct = 1; for (size_t o = 0; o < n; o += DS, ct++) { if (!(ct & 0xfff)) mc::tick(); Bytes c = {(u8)(ct >> 24), (u8)(ct >> 16), (u8)(ct >> 8), (u8)ct}, t = lng::eval(DS, {x2, y2, c}); for (size_t i = 0; i < DS && o + i < n; i++) if (C.p[hd + o + i] != (u8)(p[o + i] ^ t[i])) mc::fail("ciphertext", "message of %zu octets: first difference at octet %zu of the data", n, o + i); }
    C.g.ro(true); E.k.decrypt(O.p, &pl, C.p, n + hd); C.g.ro(false); if (pl != n || E.k.plaintext_len(C.p, n + hd) != n || memcmp(O.p, p, n)) mc::fail("roundtrip", "message of %zu octets: decryption returns another plaintext", n);
    C.p[hd + n - 1] ^= 1; bool ok = true; try { E.k.decrypt(O.p, &pl, C.p, n + hd); } catch (std::exception&) { ok = false; } if (ok) mc::fail("accepted", "message of %zu octets: changed last octet", n); C.p[hd + n - 1] ^= 1; ok = true; try { E.k.decrypt(O.p, &pl, C.p, n + hd - 1); } catch (std::exception&) { ok = false; } if (ok) mc::fail("accepted", "message of %zu octets: last octet missing", n);
}
SCENARIO("long messages", 17 * 8, [](long it) { size_t n = lng::len(it, 8).n(); if (it % 2 || n < 100000) longenc<lng::SparseHash<32>>(it, n); else longenc<lng::SparseHash<1024>>(it, n); })
// a hash whose key stream is one constant block and which checks the counter: messages beyond 2^32 octets in little memory
struct KdfState { u64 next; bool bad; }; static KdfState& kst() { static KdfState k; return k; }
template <size_t DS> class KdfHash : public hash_lib::Hash<64> {
public:
    static constexpr std::size_t BLOCK_SIZE = 64, DIGEST_SIZE = DS; lng::Core c; KdfHash() { c.init(); } void reset() { this->hash_lib::Hash<64>::reset(); c.init(); }
private:
    void update_blocks(const u8* in, std::size_t n) override { c.feed(in, n * 64); }
    void final_block(u8* d, const u8* in, std::size_t n) override { if (c.n == 64 && n == 4) { u32 ct = (u32)in[0] << 24 | in[1] << 16 | in[2] << 8 | in[3]; if (ct != kst().next++) kst().bad = true; if (!(ct & 0xfffff)) mc::tick(); memset(d, 0x6d, DS); d[1] = 0x33; return; } c.feed(in, n); c.out(d, DS); }
};
template <size_t DS> static void huge(long it, size_t n)
{
    typedef KdfHash<DS> H; const size_t P = 1 << 20; Env<H> E(filler(31)); const u8* p = lng::data(); N k = draw(filler(it + 40), sub(SM2N(), 1)); int f = (int)(it % 3); Pt S = sm2c().mul(k, E.P); Bytes x2 = rn::bytes(S.x), y2 = rn::bytes(S.y), want = enc(sm2c().mulg(k), f); mc::at("message of %ld octets, digest of %ld", n, DS); cat(want, lng::eval(DS, {x2, {p, n}, y2})); size_t hd = want.size();
    Bytes stream(P, 0x6d); for (size_t i = 1; i < P; i += DS) stream[i] = 0x33;
    // one private megabyte for the head of the ciphertext, the rest repeats
    mc::Repeat C(P, n / P + 2, 1), O(P, n / P + 2, 2); if (mmap(C.p, P, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) _exit(90);
    ScriptRng r; r.push(filler(it + 40)); size_t cl = 0, pl = 0; kst() = {1, false}; if (E.pk.ciphertext_len(p, n, pc(f)) != n + hd) mc::fail("length", "ciphertext_len for %zu octets", n); E.pk.encrypt(C.p, &cl, p, n, r, pc(f)); mc::eval(); mc::trace(); mc::state(mc::hashv(0x91, n, DS));
    if (cl != n + hd || memcmp(C.p, want.data(), hd)) mc::fail("ciphertext", "message of %zu octets: point or hash", n); if (kst().bad || kst().next != (n + DS - 1) / DS + 1) mc::fail("counter", "message of %zu octets: the key-stream counter ends at %llu", n, (unsigned long long)kst().next);
    for (size_t o : {(size_t)0, n / P / 2 * P, n - 2 * P}) for (size_t i = 0; i < 2 * P && o + i < n; i++) if (C.p[hd + o + i] != (u8)(p[o + i] ^ stream[(o + i) % P])) mc::fail("ciphertext", "message of %zu octets: difference at octet %zu of the data", n, o + i);
    kst() = {1, false}; E.k.decrypt(O.p, &pl, C.p, n + hd); if (kst().bad || kst().next != (n + DS - 1) / DS + 1) mc::fail("counter", "message of %zu octets: the key-stream counter of decryption ends at %llu", n, (unsigned long long)kst().next); if (pl != n || E.k.plaintext_len(C.p, n + hd) != n) mc::fail("length", "plaintext length %zu of %zu", pl, n); for (size_t i = 0; i < P; i++) if (O.p[i] != p[i]) mc::fail("roundtrip", "message of %zu octets: decryption returns another plaintext", n);
}
static const size_t HUGE_N[] = {((size_t)1 << 31) - 7, ((size_t)1 << 31) + 9, ((size_t)1 << 32) - 1, ((size_t)1 << 32) + 3, ((size_t)1 << 29) + 5, ((size_t)1 << 28) - 1};
SCENARIO("huge messages", 6, [](long it) { huge<2048>(it, HUGE_N[it]); if (mc::thorough()) { huge<32>(it, HUGE_N[it]); huge<256>(it, HUGE_N[it]); } })
// the length limit of the key derivation: shorter than (2^32-1) digests is served, anything longer refused
struct Started {};
template <size_t DS> class StopHash : public hash_lib::Hash<64> {
public:
    static constexpr std::size_t BLOCK_SIZE = 64, DIGEST_SIZE = DS; void reset() { this->hash_lib::Hash<64>::reset(); }
private:
    void update_blocks(const u8*, std::size_t) override {} void final_block(u8*, const u8*, std::size_t) override { throw Started(); }
};
template <size_t DS> static void limit()
{
    Env<StopHash<DS>> E(filler(31)); size_t lim = 0xffffffffull * DS; struct Space { u8* p; Space() { p = (u8*)mmap(nullptr, (size_t)1 << 40, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) _exit(90); } ~Space() { munmap(p, (size_t)1 << 40); } } space; u8* buf = space.p; Bytes c1 = enc(sm2c().mulg(filler(3)), UNC); memcpy(buf, c1.data(), 65);
    for (size_t n : {lim - 2 * DS, lim - DS, lim - 1, lim, lim + 1, lim + DS - 1, lim + DS, lim + DS + 1, 2 * lim, (size_t)1 << 39}) for (int dec = 0; dec < 2; dec++) {
        mc::at("%ld octets, digest of %ld", n, DS); mc::ctx(dec ? "decryption" : "encryption"); ScriptRng r; r.push(filler(5)); size_t o = 0; int got = 0; mc::eval(); mc::state(mc::hashv(0x92, n, DS, dec));
        try { if (dec) E.k.decrypt(buf + 128, &o, buf, 65 + DS + n); else E.pk.encrypt(buf, &o, buf, n, r); } catch (Started&) { got = 1; } catch (std::exception&) { got = 2; } if (got != (n < lim ? 1 : 2)) mc::fail("limit", "%s of %zu octets with digests of %zu: %s", dec ? "decryption" : "encryption", n, DS, got == 1 ? "served" : got == 2 ? "refused" : "returned"); if (!dec) memcpy(buf, c1.data(), 65); }
}
SCENARIO("length limit", 4, [](long it) { if (it == 0) limit<1>(); else if (it == 1) limit<2>(); else if (it == 2) limit<5>(); else limit<32>(); })
// very many encryptions and decryptions by one object: alike, varied, refused ones in between
SCENARIO("many", 6, [](long pat) {
    typedef ForcedHash<32> H; Env<H> E(filler(31)); const long n = mc::thorough() ? 140000 : 66000; struct V { Bytes m, ct, bad; N w; int f; }; std::vector<V> v;
    for (int i = 0; i < 6; i++) { V x; x.m = mc::filled(i * 13, i); x.w = i & 1 ? word_for(small(i + 1)) : filler(90 + i); x.f = i % 3; x.ct = encrypt<H>(E.P, x.m, x.f, {draw(x.w, sub(SM2N(), 1))}); x.bad = x.ct; x.bad[x.ct.size() - 1 - i % x.ct.size()] ^= 4; Bytes t; if (x.m.size() && decrypt<H>(t, E.d, x.bad)) _exit(90); v.push_back(x); }
    for (long j = 0; j < n; j++) { const V& x = v[pat == 0 || pat == 1 ? 3 : pat == 4 ? 5 : j % 6]; if (j % 100 == 0) { mc::at("pattern %ld operation %ld", pat, j); mc::tick(); } u8 o[256]; size_t l = 777; mc::eval();
        bool encr = pat == 0 || pat == 2 || (pat == 5 && j / 6 % 2); bool bad = x.m.size() && ((pat == 4 && j % 1000 != 999) || (pat == 5 && j % 5 == 2));
        if (encr) { ScriptRng r; if (pat == 2 && j % 4 == 3) { bool t = false; try { E.pk.encrypt(o, &l, x.m.data(), x.m.size(), r, pc(x.f)); } catch (RanOut&) { t = true; } if (!t) mc::fail("many", "encryption %ld without random numbers returns", j); continue; } r.push(x.w); if (j % 2) E.k.encrypt(o, &l, x.m.data(), x.m.size(), r, pc(x.f)); else E.pk.encrypt(o, &l, x.m.data(), x.m.size(), r, pc(x.f)); if (l != x.ct.size() || memcmp(o, x.ct.data(), l)) mc::fail("many", "ciphertext %ld by one object differs from the standard's (pattern %ld)", j, pat); }
        else { const Bytes& c = bad ? x.bad : x.ct; bool t = false; try { E.k.decrypt(o, &l, c.data(), c.size()); } catch (std::exception&) { t = true; } if (t != bad) mc::fail(t ? "refused" : "accepted", "decryption %ld by one object %s %s ciphertext (pattern %ld)", j, t ? "refuses" : "accepts", bad ? "an altered" : "a genuine", pat); if (!t && (l != x.m.size() || memcmp(o, x.m.data(), l))) mc::fail("plaintext", "decryption %ld by one object: wrong plaintext", j); } }
    mc::trace(); mc::state(mc::hashv(0x4d, pat)); })
MC_MAIN
