// C01: streamed ECB/CBC/CFB/OFB/CTR against the whole-message definition, for every
// chunking in bounded families.
#include "modes.h"
#include "longmode.h"
#include <gmlib/aes/aes.h>
#include <gmlib/sm4/sm4.h>
using namespace mc; using namespace toy;

struct Arena { Tight in{1 << 16}, out{1 << 16}; };
static Arena& arena() { static Arena* a = new Arena; return *a; }

struct Run {
    const Kind& K; size_t BS; u8 key[64]; Bytes iv, msg, want;
    std::unique_ptr<IMode> fresh;
    Run(const Kind& k, size_t maxlen, u64 seed) : K(k), BS(k.bs)
    {
        fill(key, sizeof key, seed); iv = filled(BS, seed + 1); msg = filled(maxlen, seed + 2);
        ref();
    }
    void ref()
    {
        Bytes m = msg; m.resize((m.size() + BS - 1) / BS * BS);
        want = ref_mode(K.perm(key), K.mode, K.enc, iv, m); want.resize(msg.size());
        fresh.reset(K.make()); fresh->init(key, iv.data());
    }
    struct St {
        std::unique_ptr<IMode> t; size_t cons = 0, prod = 0;
        St() {}
        St(const St& o) : t(o.t->clone()), cons(o.cons), prod(o.prod) {}
    };
    void begin(St& s) { s.t.reset(fresh->clone()); s.cons = s.prod = 0; }

    // one call; last = do_final. bi/bo are the starts of the whole message's input and output
    void call(St& s, size_t n, bool last, bool with_data, u8* bi, u8* bo, size_t L)
    {
        size_t pend = s.cons - s.prod, can = (pend + n) / BS * BS; if (last) can = pend + n;
        size_t outl = 0xdeadbeef;
        if (last) { if (with_data) s.t->fin(bo + s.prod, &outl, bi + s.cons, n); else s.t->fin0(bo + s.prod, &outl); }
        else s.t->update(bo + s.prod, &outl, bi + s.cons, n);
        trans();
        if (outl != can) fail("outl", "call at offset %zu with %zu bytes (%s): reported length %zu, expected %zu", s.cons, n, last ? "final" : "update", outl, can);
        s.cons += n; s.prod += can;
        state(hashv(K.tag, K.mode, K.enc, s.cons, s.prod, last, L));
    }
    void check(const u8* o, size_t L, bool tight_ok)
    {
        trace();
        expect_eq("bytes", o, want.data(), L, "output");
        if (!tight_ok) fail("canary", "bytes in front of the output were overwritten");
    }
    bool whole(size_t L) { return K.mode > CBC || L % BS == 0; }

    // all compositions of L (chunks >= 1), depth first over copies of the object
    std::vector<int> path;
    void dfs(const St& s, size_t L, u8* in, Tight& o)
    {
        size_t rest = L - s.cons;
        for (size_t n = 1; n <= rest; n++) {
            St b = s; path.push_back((int)n);
            at("BS=%ld PN=%ld L=%ld, %ld chunks, last %ld", BS, K.pn, L, path.size(), n);
            try {
                if (n < rest) { call(b, n, false, true, in, o.p, L); dfs(b, L, in, o); path.pop_back(); continue; }
                for (int v = 0; v < 2; v++) { // 0: last chunk goes to the final call, 1: to update
                    St c = s;
                    if (v) call(c, n, false, true, in, o.p, L);
                    call(c, v ? 0 : n, true, !v, in, o.p, L);
                    check(o.p, L, o.ok());
                }
            } catch (Abort&) { if (!path.empty()) { std::string p; for (int x : path) p += std::to_string(x) + " "; fprintf(stderr, "%s chunks: %s\n", K.name().c_str(), p.c_str()); path.clear(); } throw; }
            path.pop_back();
        }
    }
    void all_compositions(size_t L)
    {
        if (!whole(L)) return;
        Arena& a = arena(); a.in.set(Bytes(msg.begin(), msg.begin() + L)); a.out.set(L);
        St s; begin(s); path.clear();
        if (L == 0) { call(s, 0, true, false, a.in.p, a.out.p, 0); trace(); return; }
        sample("%s: all 2^%zu chunkings of %zu bytes", K.name().c_str(), L - 1, L);
        dfs(s, L, a.in.p, a.out);
    }
    // explicit chunk list, separate or in place, last chunk given to do_final or not
    void listed(const size_t* c, size_t k, bool inplace, bool final_data)
    {
        size_t L = 0; for (size_t i = 0; i < k; i++) L += c[i];
        if (!whole(L)) return;
        at("BS=%ld PN=%ld chunks=%ld,%ld,%ld n=%ld inplace=%ld finaldata=%ld", BS, K.pn, k > 0 ? c[0] : 0, k > 1 ? c[1] : 0, k > 2 ? c[2] : 0, k, inplace, final_data);
        Arena& a = arena(); u8 *bi, *bo;
        if (inplace) { bo = a.out.set(Bytes(msg.begin(), msg.begin() + L)); bi = bo; }
        else { bi = a.in.set(Bytes(msg.begin(), msg.begin() + L)); bo = a.out.set(L); }
        St s; begin(s);
        for (size_t i = 0; i < k; i++) call(s, c[i], i + 1 == k && final_data, true, bi, bo, L);
        if (!final_data) call(s, 0, true, false, bi, bo, L);
        check(bo, L, a.out.ok());
        if (!inplace) expect_eq("input", bi, msg.data(), L, "input buffer was modified");
    }
};

static void fam_comp(const Kind& k, size_t lmax, long item)
{
    ctx("%s", k.name().c_str());
    Run r(k, lmax, 100 + item);
    for (size_t L = 0; L <= lmax; L++) r.all_compositions(L);
}
static void fam_cuts(const Kind& k, long item)
{
    size_t BS = k.bs, PN = k.pn, lmax = BS * PN * 2 + BS + 3;
    ctx("%s", k.name().c_str());
    Run r(k, lmax + 2 * BS, 300 + item);
    std::vector<size_t> Ls;
    if (k.mode <= CBC) Ls = {BS * PN * 2 + BS, BS * PN, BS * (PN + 1)};
    else Ls = {lmax, BS * PN * 2 + BS, BS * PN + 1};
    auto near = [&](size_t x) { size_t m = x % BS; return m <= 2 || m + 2 >= BS; };
    for (size_t L : Ls)
        for (size_t a = 0; a <= L; a++)
            for (size_t b = 0; a + b <= L; b++) {
                // long messages: cuts within 2 bytes of a block boundary only, unless thorough
                if (!thorough() && L > 100 && !(near(a) && near(a + b))) continue;
                size_t c[3] = {a, b, L - a - b};
                for (int v = 0; v < 4; v++) r.listed(c, 3, v & 1, v & 2);
            }
    sample("%s: every 3-chunk split of %zu bytes, separate and in place", k.name().c_str(), Ls[0]);
    for (size_t L = 0; L <= lmax; L++) {
        for (size_t a = 0; a <= L; a++) {
            if (!thorough() && L > 100 && !near(a)) continue;
            size_t c[2] = {a, L - a}; for (int v = 0; v < 4; v++) r.listed(c, 2, v & 1, v & 2);
        }
        size_t c[1] = {L}; for (int v = 0; v < 4; v++) r.listed(c, 1, v & 1, v & 2);
    }
    // fixed-size chunking of a long message: q bytes per call
    for (size_t q = 1; q <= 2 * BS * PN + 1; q++) {
        size_t L = k.mode <= CBC ? (lmax / BS) * BS : lmax;
        for (int v = 0; v < 2; v++) {
            Arena& a = arena(); u8 *bi, *bo;
            at("BS=%ld PN=%ld fixed chunk size %ld, L=%ld inplace=%ld", BS, PN, q, L, v);
            if (v) { bo = a.out.set(Bytes(r.msg.begin(), r.msg.begin() + L)); bi = bo; }
            else { bi = a.in.set(Bytes(r.msg.begin(), r.msg.begin() + L)); bo = a.out.set(L); }
            Run::St s; r.begin(s);
            while (s.cons < L) r.call(s, std::min(q, L - s.cons), false, true, bi, bo, L);
            r.call(s, 0, true, false, bi, bo, L);
            r.check(bo, L, a.out.ok());
        }
    }
}
// counters about to carry: every carry depth, every distance to the carry
static void fam_ctr_iv(const Kind& K, long item)
{
    size_t BS = K.bs, PN = K.pn, nb = 2 * PN + 2, L = nb * BS + (BS > 1 ? 1 : 0);
    ctx("%s carry", K.name().c_str());
    Run r(K, L, 500 + item);
    for (size_t j = 0; j <= BS; j++)
        for (size_t d = 0; d <= nb; d++)
            for (int pre = 0; pre < 3; pre++) {
                Bytes iv(BS); for (size_t i = 0; i < BS; i++) iv[i] = i >= BS - j ? 0xFF : pre == 0 ? 0x00 : pre == 1 ? 0x7F : 0xFE;
                for (size_t q = 0; q < d; q++) { size_t i = BS; while (i-- > 0) if (iv[i]--) break; }
                r.iv = iv; r.ref();
                size_t one[1] = {L}; r.listed(one, 1, false, true);
                for (size_t k = 0; k <= nb; k++) { size_t c[2] = {k * BS, L - k * BS}; r.listed(c, 2, false, true); }
                state(hash(iv.data(), iv.size(), K.tag + 9000));
            }
    sample("%s: IV ending in j FF bytes minus d for all j<=%zu, d<=%zu", K.name().c_str(), BS, nb);
}

static std::vector<Kind> cut_k, comp_k, ctr_k; static std::vector<size_t> comp_l;
static void cut(std::vector<Kind> v) { for (auto& k : v) { if (k.enc || k.mode < OFB) cut_k.push_back(k); if (k.mode == CTR && k.enc) ctr_k.push_back(k); } }
static void comp(std::vector<Kind> v, size_t lq, size_t lt) { for (auto& k : v) { comp_k.push_back(k); comp_l.push_back(thorough() ? lt : lq); if (k.mode == CTR && k.enc) ctr_k.push_back(k); } }
SETUP([] {
    for (int i = 0; i < 64; i++) { // the toy permutation really is one
        u8 k[4]; fill(k, 4, i); Toy<5, 2> t; t.set_key(k, 1); u8 x[5], y[5]; fill(x, 5, i + 9); memcpy(y, x, 5); t.E(y); t.D(y); if (memcmp(x, y, 5)) { fprintf(stderr, "toy cipher broken\n"); exit(3); }
    }
    cut(KINDS(Toy<16, 8>)); cut(KINDS(Toy<16, 4>)); cut(KINDS(Toy<16, 1>)); cut(KINDS(Toy<16, 5>)); cut(KINDS(Toy<8, 3>)); cut(KINDS(Toy<32, 2>));
    cut(KINDS(Toy<12, 3>)); cut(KINDS(Toy<16, 16>)); cut(KINDS(Toy<7, 3>)); cut(KINDS(sm4::SM4)); cut(KINDS(aes::AES128)); cut(KINDS(Toy<64, 2>)); cut(KINDS(Toy<8, 1>));
    comp(KINDS(Toy<4, 2>), 14, 18); comp(KINDS(Toy<3, 2>), 14, 18); comp(KINDS(Toy<2, 3>), 14, 18); comp(KINDS(Toy<4, 1>), 13, 17);
    comp(KINDS(Toy<1, 1>), 10, 14); comp(KINDS(Toy<1, 3>), 11, 16); comp(KINDS(Toy<2, 1>), 12, 16); comp(KINDS(Toy<5, 2>), 14, 18); comp(KINDS(Toy<3, 4>), 14, 18);
})
SCENARIO("cuts", [] { return (long)cut_k.size(); }, [](long i) { fam_cuts(cut_k[i], i); })
SCENARIO("compositions", [] { return (long)comp_k.size(); }, [](long i) { fam_comp(comp_k[i], comp_l[i], i); })
SCENARIO("ctr_carry", [] { return (long)ctr_k.size(); }, [](long i) { fam_ctr_iv(ctr_k[i], i); })
// one call of n octets after `pre` octets, then `post` more; the output is judged over its last MiB, every reported length exactly
static const u8* lin() { static Repeat* r = new Repeat(1 << 20, 4100, 5); return r->p; }
static u8* lout() { static Repeat* r = new Repeat(1 << 20, 4102, 6); return r->p; }
struct Lw { size_t pre, n, post; bool fin; };
template <size_t BS, size_t PN> static void longone(int mode, bool enc, const Lw& w)
{
    const size_t M = 1 << 20; typedef lm::Quick<BS, PN> Q; std::unique_ptr<IMode> t; static std::vector<Kind> ks = kinds_of<Q>("Quick"); for (auto& k : ks) if (k.mode == mode && k.enc == enc) { ctx("%s BS=%zu PN=%zu", k.name().c_str(), BS, PN); t.reset(k.make()); }
    u64 key = 0x1234567 + w.n; u8 iv[BS]; fill(iv, BS, 3); if (w.n % 3 == 0) memset(iv, 255, BS); u8 kb[8]; memcpy(kb, &key, 8); at("one call of %ld octets after %ld, then %ld", w.n, w.pre, w.post); tick();
    size_t total = w.pre + w.n + w.post; const u8* in = lin(); u8* o = lout() + 13; t->init(kb, iv); size_t cons = 0, prod = 0;
    auto call = [&](size_t n, bool fin) { size_t ol = 77, want = fin ? cons + n - prod : (cons + n) / BS * BS - prod; if (fin) t->fin(o + prod, &ol, in + cons, n); else t->update(o + prod, &ol, in + cons, n); trans(); tick(); if (ol != want) fail("long outl", "reported %zu octets, expected %zu", ol, want); cons += n; prod += ol; };
    if (w.pre) call(w.pre, false); call(w.n, w.fin && !w.post); if (w.post) call(w.post, w.fin); if (!w.fin) call(0, true); trace(); tick();
    static Bytes img(M); lm::Ref<BS> r(mode, enc, key, iv); u8 blk[64]; size_t q = 0; bool seekable = mode == ECB || mode == CTR || ((mode == CBC || mode == CFB) && !enc);
    if (seekable && total > 3 * M) { q = (total - M - 64) / BS * BS; if (mode == CTR) { u64 add = q / BS; for (size_t i = BS; i-- > 0;) { add += r.c[i]; r.c[i] = (u8)add; add >>= 8; } } else memcpy(r.c, in + q - BS, BS); }
    for (; q < total; q += BS) { size_t n = std::min(BS, total - q), a = (q + 13) % M; r.block(blk, in + q); if (a + n <= M) memcpy(&img[a], blk, n); else for (size_t i = 0; i < n; i++) img[(a + i) % M] = blk[i]; }
    tick(); size_t len = std::min(total, M), from = total - len; for (size_t i = 0; i < len; i++) { size_t a = (from + i + 13) % M; if (lout()[a] != img[a]) fail("long", "output octet %zu of %zu is %02x, expected %02x", from + i, total, lout()[a], img[a]); }
    state(hashv(0x4c4f, BS, PN, mode, enc, w.n, w.pre, w.post, w.fin));
}
static const int DIRS[8][2] = {{ECB, 1}, {ECB, 0}, {CBC, 1}, {CBC, 0}, {CFB, 1}, {CFB, 0}, {OFB, 1}, {CTR, 1}};
template <size_t BS, size_t PN> static void longcalls(long d, int k, int sel)
{
    int mode = DIRS[d][0]; bool enc = DIRS[d][1], whole = mode <= CBC, big = k >= 29; size_t n = (size_t)1 << k, B = BS * PN;
    std::vector<Lw> v = {{0, n, 0, true}, {BS, n - BS, 2 * BS, false}, {0, n + B + BS, BS, true}, {B, n, B + BS, true}};
    if (!whole) { v.push_back({5, n + 3, 9, true}); v.push_back({0, n - 1, 0, true}); v.push_back({1, n + BS - 1, 0, false}); v.push_back({0, n + 1, BS, true}); }
    for (size_t i = 0; i < v.size(); i++) if (!big || thorough() || i % 4 == (size_t)(sel + d) % 4) longone<BS, PN>(mode, enc, v[i]);
}
SCENARIO("long calls", 8 * 25, [](long it) { int k = 32 - (int)(it / 8); long d = it % 8; longcalls<16, 8>(d, k, 0); if (k < 29 || thorough()) { longcalls<16, 1>(d, k, 1); longcalls<8, 3>(d, k, 2); longcalls<16, 4>(d, k, 3); longcalls<32, 2>(d, k, 3); } })
// one message handed over in more than 2^16 calls: what an object counts must not wrap
SCENARIO("many calls", [] { return (long)cut_k.size(); }, [](long i) {
    const Kind& K = cut_k[i]; size_t BS = K.bs, B = BS * K.pn; ctx("%s, many calls", K.name().c_str()); const size_t N = thorough() ? 140000 : 66000; bool whole = K.mode <= CBC;
    std::vector<std::vector<size_t>> pats = {{1}, {0, 1, 0}, {BS, 0}, {BS + 1, BS > 1 ? BS - 1 : 1, 0, 0, 2}, {0}}; if (B <= 64 || thorough()) pats.push_back({B, 1, B - 1, 0});
    for (auto& p : pats) {
        size_t L = 0; for (size_t j = 0; j < N; j++) L += p[j % p.size()]; size_t tail = whole ? (BS - L % BS) % BS : 3; at("%ld calls cycling over %ld lengths, the first %ld octets", N, p.size(), p[0]);
        Run r(K, L + tail, 900 + i); tick(); static Tight* o = new Tight(1 << 25); u8* b = o->set(r.msg); std::unique_ptr<IMode> t(r.fresh->clone()); size_t cons = 0, prod = 0;
        for (size_t j = 0; j <= N; j++) {
            size_t n = j < N ? p[j % p.size()] : tail, ol = 77, want = (cons + n) / BS * BS - prod; if (j == N) want = cons + n - prod;
            if (j == N) t->fin(b + prod, &ol, b + cons, n); else t->update(b + prod, &ol, b + cons, n); trans();
            if (ol != want) fail("many outl", "call %zu of %zu octets: reported %zu, expected %zu", j, n, ol, want); cons += n; prod += ol;
        }
        trace(); tick(); expect_eq("many bytes", b, r.want.data(), L + tail, "output of a message in many calls"); state(hashv(0x6d63, i, p.size(), p[0], N));
    }
})
MC_MAIN
