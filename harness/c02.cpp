// C02: every call history over one or two mode objects (init, reset, update, final,
// copy, assign, destroy), in any order, against a model that only knows the message
// each object is currently processing.
#include "modes.h"
#include "longmode.h"
#include "ref_gcm.h"
#include <gmlib/block_cipher_mode/gcm_mode.h>
#include <gmlib/sm4/sm4.h>
#include <gmlib/aes/aes.h>
using namespace mc; using namespace toy;

// GCM objects behind the same interface (init only, no reset)
struct ITag { virtual void get(u8*) = 0; virtual void set(const u8*) = 0; virtual ~ITag() = default; };
static const Bytes AAD[2] = {filled(5, 71), filled(16, 72)};
static const size_t GIV[2] = {12, 17};
template <class C, bool ENC> struct GImpl : IMode, ITag {
    std::conditional_t<ENC, B::GcmEncryptor<C>, B::GcmDecryptor<C>> t;
    IMode* clone() const override { return new GImpl(*this); }
    // iv[31] selects length and AAD
    void construct(const u8* k, const u8* iv) override { t = decltype(t)(k, iv, GIV[iv[31]], AAD[iv[31]].data(), AAD[iv[31]].size()); }
    void init(const u8* k, const u8* iv) override { t.init(k, iv, GIV[iv[31]], AAD[iv[31]].data(), AAD[iv[31]].size()); }
    void reset(const u8*) override { abort(); }
    void update(u8* o, size_t* ol, const u8* in, size_t n) override { t.update(o, ol, in, n); }
    void fin(u8* o, size_t* ol, const u8* in, size_t n) override { t.do_final(o, ol, in, n); }
    void fin0(u8* o, size_t* ol) override { t.do_final(o, ol); }
    void get(u8* p) override { if constexpr (ENC) t.get_tag(p); }
    void set(const u8* p) override { if constexpr (!ENC) t.set_tag(p); }
};
struct Fam { Kind k; bool gcm; int depth1, depth2; };
static std::vector<Fam> fams;

enum { MAXL = 1600 };
struct Exp {
    const Fam& F; const Kind& K; size_t BS; bool gcm; ssize_t nobj; int depth; long item; int first;
    Bytes key[2], iv[2], msg[2][2], want[2][2]; std::vector<Bytes> tags[2][2];
    std::vector<size_t> U, Fn;
    enum St { RAW, ACTIVE, DONE };
    struct Obj { std::unique_ptr<IMode> t; int st = RAW, k = 0, v = 0, keyset = -1; size_t n = 0; };
    std::vector<std::string> hist;
    Exp(const Fam& f, int nobj_, int depth_, bool wide = false) : F(f), K(f.k), BS(f.k.bs), gcm(f.gcm), nobj(nobj_), depth(depth_)
    {
        for (int i = 0; i < 2; i++) { key[i] = filled(64, 11 + i); iv[i] = filled(32, 21 + i); iv[i][31] = (u8)i; }
        for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) {
            msg[a][b] = filled(MAXL / BS * BS, 31 + a * 2 + b);
            if (!gcm) want[a][b] = ref_mode(K.perm(key[a].data()), K.mode, K.enc, Bytes(iv[b].begin(), iv[b].begin() + BS), msg[a][b]);
            else {
                Perm p = K.perm(key[a].data()); Bytes j = refgcm::j0_of(p, Bytes(iv[b].begin(), iv[b].begin() + GIV[b]));
                want[a][b] = refgcm::gctr(p, j, msg[a][b]);
                const Bytes& ct = K.enc ? want[a][b] : msg[a][b];
                for (size_t n = 0; n <= ct.size() && n <= (wide ? 1200 : 160); n++) tags[a][b].push_back(refgcm::tag(p, j, AAD[b], ct.data(), n));
            }
        }
        if (nobj == 1) { U = {1, BS - 1, BS, 2 * BS + 1}; Fn = {0, 1, BS}; }
        else { U = {1, BS}; Fn = {0, 1}; }
        if (BS == 1) { U = {1, 3}; Fn = {0, 1}; }
        size_t P = F.k.pn; if (wide) { U = {1, BS - 1 + (BS == 1), BS, (P - 1 + (P == 1)) * BS, P * BS, (P + 1) * BS + 1}; Fn = {0, (P + 2) * BS - 1}; }
    }
    // operations of one object: init x2, construct, reset x2, updates, finals, (copy, assign)
    int nops() const { return 3 + (gcm ? 0 : (K.mode == ECB ? 1 : 2)) + (int)U.size() + (int)Fn.size() * (gcm && !K.enc ? 2 : 1) + (nobj == 2 ? 2 : 1); }
    std::vector<Obj> copy(const std::vector<Obj>& o) const
    {
        std::vector<Obj> r(o.size());
        for (size_t i = 0; i < o.size(); i++) { r[i].t.reset(o[i].t->clone()); r[i].st = o[i].st; r[i].k = o[i].k; r[i].v = o[i].v; r[i].keyset = o[i].keyset; r[i].n = o[i].n; }
        return r;
    }
    u8 ob[2048], ib[2048];
    // returns false if the operation is not allowed by the interface in this state
    bool apply(std::vector<Obj>& os, int oi, int op)
    {
        Obj& o = os[oi]; char d[64];
        auto log = [&](const char* f, long a) { snprintf(d, sizeof d, f, a); hist.push_back(std::string(1, 'A' + oi) + "." + d); };
        auto startmsg = [&](int k, int v) { o.st = ACTIVE; o.k = k; o.v = v; o.n = 0; o.keyset = k; };
        if (op < 2) { log("init(%ld)", op); o.t->init(key[op].data(), iv[op].data()); startmsg(op, op); return true; }
        op -= 2;
        if (op < 1) { log("construct(%ld)", 0); o.t->construct(key[0].data(), iv[1].data()); startmsg(0, 1); return true; }
        op -= 1;
        int nr = gcm ? 0 : K.mode == ECB ? 1 : 2;
        if (op < nr) { if (o.keyset < 0) return false; log("reset(%ld)", op); o.t->reset(iv[op].data()); startmsg(o.k, K.mode == ECB ? 0 : op); return true; }
        op -= nr;
        if (op < (int)U.size()) {
            size_t n = U[op]; if (o.st != ACTIVE) return false;
            log("update(%ld)", n); run(o, n, 0, true); return true;
        }
        op -= (int)U.size();
        int nf = (int)Fn.size() * (gcm && !K.enc ? 2 : 1);
        if (op < nf) { if (o.st != ACTIVE) return false; bool good = op < (int)Fn.size(); size_t n = Fn[op % Fn.size()]; log(good ? "final(%ld)" : "final_with_wrong_tag(%ld)", n); run(o, n, 1, good); return true; }
        op -= nf;
        if (nobj == 2) {
            Obj& p = os[1 - oi];
            if (op == 0) { log("=copy of other%ld", 0); Obj c; c.t.reset(p.t->clone()); c.st = p.st; c.k = p.k; c.v = p.v; c.keyset = p.keyset; c.n = p.n; os[oi] = std::move(c); return true; }
            log("destroyed%ld", 0); Obj c; c.t.reset(K.make()); os[oi] = std::move(c); return true;
        }
        log("copy and continue with the copy%ld", 0); { std::unique_ptr<IMode> n(o.t->clone()); // scribble over the original before dropping it
            std::unique_ptr<IMode> old(std::move(o.t)); old->init(key[1].data(), iv[0].data()); size_t l; old->update(ob, &l, msg[1][1].data(), BS + 1); o.t = std::move(n); }
        return true;
    }
    void run(Obj& o, size_t n, bool last, bool good)
    {
        const Bytes& m = msg[o.k][o.v]; const Bytes& w = want[o.k][o.v];
        if (o.n + n > m.size()) return;
        size_t done = o.n / BS * BS, tot = o.n + n, upto = last ? tot : tot / BS * BS, outl = 777;
        bool throws = false, want_throw = last && !gcm && K.mode <= CBC && tot % BS;
        if (last && gcm && !K.enc) { u8 t[16]; if (tot >= tags[o.k][o.v].size()) return; memcpy(t, tags[o.k][o.v][tot].data(), 16); if (!good) t[(tot + o.k) % 16] ^= 1 << (tot % 8), want_throw = true; dynamic_cast<ITag*>(o.t.get())->set(t); }
        memset(ob, 0xEE, sizeof ob); memcpy(ib, m.data() + o.n, n);
        try { if (!last) o.t->update(ob, &outl, ib, n); else if (n) o.t->fin(ob, &outl, ib, n); else o.t->fin0(ob, &outl); }
        catch (std::runtime_error&) { throws = true; }
        if (throws != want_throw) bad(throws ? "call threw although the message is acceptable" : "final call accepted a message it must reject");
        if (!throws) {
            if (outl != upto - done) bad("wrong output length");
            if (memcmp(ob, w.data() + done, outl)) bad("wrong output bytes");
            if (last && gcm && K.enc) { u8 t[16]; dynamic_cast<ITag*>(o.t.get())->get(t); if (tot < tags[o.k][o.v].size() && memcmp(t, tags[o.k][o.v][tot].data(), 16)) bad("wrong tag"); }
        }
        o.n = tot; if (last) { o.st = DONE; trace(); }
    }
    void bad(const char* what) { std::string h; for (auto& s : hist) h += s + "; "; fail("history", "%s after: %s", what, h.c_str()); }
    void dfs(const std::vector<Obj>& os, int d)
    {
        int nops1 = nops();
        for (int oi = 0; oi < nobj; oi++)
            for (int op = 0; op < nops1; op++) {
                if (d == 0 && first >= 0 && oi * nops1 + op != first) continue;
                std::vector<Obj> n = copy(os); size_t hl = hist.size();
                tick();
                try { if (!apply(n, oi, op)) { hist.resize(hl); continue; } }
                catch (std::runtime_error& e) { bad(e.what()); }
                trans();
                u64 h = hashv(K.tag, K.mode, K.enc, gcm); for (auto& o : n) h = hashv(h, o.st, o.k, o.v, o.keyset, o.n); state(h);
                if (d + 1 < depth) dfs(n, d + 1);
                hist.resize(hl);
            }
    }
    void go(int f)
    {
        first = f; ctx("%s%s, %zd object(s), depth %d", gcm ? (K.enc ? "GCM encrypt " : "GCM decrypt ") : "", gcm ? K.cname : K.name().c_str(), nobj, depth);
        at("first operation %ld", f);
        std::vector<Obj> os(nobj); for (auto& o : os) o.t.reset(K.make());
        dfs(os, 0);
        if (f == 0) sample("%s: all histories of %d operations over %zd object(s), %d operations per object", K.name().c_str(), depth, nobj, nops());
    }
};
struct Item { int fam, nobj, depth, first; bool wide; };
static std::vector<Item> items;
template <class C> void add(const char* cn, int d1, int d2)
{
    for (auto& k : kinds_of<C>(cn)) { if ((k.mode >= OFB) && !k.enc) continue; fams.push_back({k, false, d1, d2}); }
}
template <class C> void addg(const char* cn, int d1, int d2)
{
    Kind k; k.cname = cn; k.bs = 16; k.pn = C::PARALLEL_NUM; k.mode = CTR; k.klen = C::USER_KEY_LEN; k.perm = perm_of<C>; k.tag = 500 + (int)fams.size();
    k.enc = true; k.make = []() -> IMode* { return new GImpl<C, true>(); }; fams.push_back({k, true, d1, d2});
    k.enc = false; k.make = []() -> IMode* { return new GImpl<C, false>(); }; fams.push_back({k, true, d1, d2});
}
SETUP([] {
    int t = thorough();
    add<Toy<4, 2>>("Toy<4,2>", 6, 5); add<Toy<16, 4>>("Toy<16,4>", 5 + t, 4 + t); add<Toy<1, 2>>("Toy<1,2>", 5 + t, 4 + t);
    add<sm4::SM4>("SM4", 5 + t, 4); add<aes::AES128>("AES128", 4 + t, 4);
    addg<Toy<16, 2>>("Toy<16,2>", 5 + t, 5); addg<sm4::SM4>("SM4", 5 + t, 4 + t); addg<aes::AES256>("AES256", 5 + t, 4 + t);
    for (int f = 0; f < (int)fams.size(); f++)
        for (int no = 2; no >= 1; no--) {
            Exp e(fams[f], no, 1); int d = no == 1 ? fams[f].depth1 : fams[f].depth2;
            for (int k = 0; k < e.nops() * no; k++) items.push_back({f, no, d, k, false});
            if (no == 1) { Exp w(fams[f], 1, 1, true); for (int k = 0; k < w.nops(); k++) items.push_back({f, 1, 4, k, true}); }
        }
})
SCENARIO("histories", [] { return (long)items.size(); }, [](long i) { Exp e(fams[items[i].fam], items[i].nobj, items[i].depth, items[i].wide); e.go(items[i].first); })
// every way to leave a session: one update of every length up to two batches, a second short one,
// then nothing, a final, or a refused final; afterwards every way to start the next message
SCENARIO("abandoned sessions", [] { return (long)fams.size() * 4; }, [](long it) {
    int how = (int)(it % 4); const Fam& f = fams[it / 4]; if (f.k.pn > 8 && !thorough() && how == 3) return; Exp e(f, 1, 1, true); size_t P = f.k.pn, BS = e.BS; ctx("%s%s, abandoned session, start %d", f.gcm ? (f.k.enc ? "GCM encrypt " : "GCM decrypt ") : "", f.gcm ? f.k.cname : f.k.name().c_str(), how);
    for (size_t n = 0; n <= (2 * P + 1) * BS + 1; n++) for (size_t m : {(size_t)0, (size_t)1, BS}) for (int leave = 0; leave < 3; leave++) {
        std::vector<Exp::Obj> os(1); Exp::Obj& o = os[0]; o.t.reset(f.k.make()); e.hist.clear(); at("updates %ld and %ld, leave %ld", n, m, leave); auto start = [&](int k, int v) { o.st = Exp::ACTIVE; o.k = k; o.v = v; o.n = 0; o.keyset = k; };
        e.hist.push_back("init(0)"); o.t->init(e.key[0].data(), e.iv[0].data()); start(0, 0); e.run(o, n, 0, true); e.run(o, m, 0, true); e.hist.push_back("update(" + std::to_string(n) + "); update(" + std::to_string(m) + ")"); if (leave) { e.hist.push_back("final"); e.run(o, leave == 1 ? 0 : 1, 1, leave == 1); }
        if (how < 2) { if (f.gcm) { e.hist.push_back("init"); o.t->init(e.key[0].data(), e.iv[how].data()); } else { e.hist.push_back("reset"); o.t->reset(e.iv[how].data()); } start(0, f.k.mode == ECB && !f.gcm ? 0 : how); }
        else if (how == 2) { e.hist.push_back("init(1)"); o.t->init(e.key[1].data(), e.iv[1].data()); start(1, 1); } else { e.hist.push_back("construct"); o.t->construct(e.key[0].data(), e.iv[1].data()); start(0, 1); }
        trans(4); e.hist.push_back("update; final"); e.run(o, BS - 1, 0, true); e.run(o, P * BS + 1, 0, true); e.run(o, BS - (BS > 0 && (f.gcm || f.k.mode > CBC) ? 1 : 0), 1, true); state(hashv(f.k.tag, f.k.mode, f.k.enc, f.gcm, n, m, leave, how));
    }
})
// a session with one call of n octets, finished or abandoned, then the next message on the same object
static const u8* lin() { static Repeat* r = new Repeat(1 << 20, 4100, 5); return r->p; }
static u8* lout() { static Repeat* r = new Repeat(1 << 20, 4102, 6); return r->p; }
template <class Q> static void longsession(const Fam& f, int k, int part)
{
    Exp e(f, 1, 1, true); bool big = k >= 29; size_t BS = e.BS; ctx("%s%s, session of one long call", f.gcm ? (f.k.enc ? "GCM encrypt " : "GCM decrypt ") : "", f.gcm ? f.k.cname : f.k.name().c_str()); int c = 0;
    for (long d : {5L, 0L, -1L, (long)BS}) for (int leave = 0; leave < 2; leave++) for (int how = 0; how < 4; how++) {
        if (c++ % (big ? 8 : 1) != (big ? part % 8 : 0) && !thorough()) continue; size_t n = ((size_t)1 << k) + d; std::vector<Exp::Obj> os(1); Exp::Obj& o = os[0]; o.t.reset(f.k.make()); e.hist.clear(); auto start = [&](int kk, int v) { o.st = Exp::ACTIVE; o.k = kk; o.v = v; o.n = 0; o.keyset = kk; };
        at("one call of %ld octets, leave %ld, start %ld", n, leave, how); tick(); e.hist.push_back("init(0); update(" + std::to_string(n) + ")"); o.t->init(e.key[0].data(), e.iv[0].data()); size_t ol; o.t->update(lout(), &ol, lin(), n); tick(); if (ol != n / BS * BS) fail("outl", "reported %zu octets for %zu", ol, n);
        if (leave) { e.hist.push_back("final"); try { o.t->fin0(lout(), &ol); } catch (std::exception&) { if (f.gcm ? f.k.enc : f.k.mode > CBC || n % BS == 0) throw; } }
        if (how < 2) { if (f.gcm) { e.hist.push_back("init"); o.t->init(e.key[0].data(), e.iv[how].data()); } else { e.hist.push_back("reset"); o.t->reset(e.iv[how].data()); } start(0, f.k.mode == ECB && !f.gcm ? 0 : how); }
        else if (how == 2) { e.hist.push_back("init(1)"); o.t->init(e.key[1].data(), e.iv[1].data()); start(1, 1); } else { e.hist.push_back("construct"); o.t->construct(e.key[0].data(), e.iv[1].data()); start(0, 1); }
        trans(4); e.hist.push_back("update; final"); e.run(o, BS - 1, 0, true); e.run(o, f.k.pn * BS + 1, 0, true); e.run(o, f.gcm || f.k.mode > CBC ? BS - 1 : BS, 1, true); state(hashv(0x105, f.k.mode, f.k.enc, f.gcm, f.k.pn, n, leave, how));
    }
}
static std::vector<Fam>& lfams() { static std::vector<Fam> v; if (v.empty()) { auto old = fams; fams.clear(); add<lm::Quick<16, 8>>("Quick<16,8>", 1, 1); addg<lm::Quick<16, 8>>("Quick<16,8>", 1, 1); v = fams; fams = old; } return v; }
SCENARIO("long sessions", 10 * 25, [](long it) { const Fam& f = lfams()[it % 10]; int k = 32 - (int)(it / 10); if (f.gcm && sizeof(ghash::GHash) >= 1000 && k > 29 && !thorough()) return; longsession<int>(f, k, (int)it); })
// a message, then one under a key or IV that differs in one octet (or not at all), then the first again, on one object
SCENARIO("related restarts", [] { return (long)fams.size() * 2; }, [](long it) {
    const Fam& f = fams[it / 2]; const Kind& k = f.k; size_t BS = k.bs, P = f.k.pn; bool gcm = f.gcm; ctx("%s%s, related restarts", gcm ? (k.enc ? "GCM encrypt " : "GCM decrypt ") : "", gcm ? k.cname : k.name().c_str()); std::unique_ptr<IMode> o(k.make());
    size_t L = (P <= 8 ? P + 1 : 3) * BS; Bytes msg = filled(L, 31), key0 = filled(64, 611), iv0 = filled(32, 612); iv0[31] = (u8)(it % 2); std::vector<std::pair<Bytes, Bytes>> v; v.push_back({key0, iv0}); size_t ivn = gcm ? GIV[it % 2] : k.mode == ECB ? 0 : BS;
    std::vector<int> xs = {1, 0x80, 0xff}; for (size_t i = 0; i < k.klen; i++) for (int x : xs) { Bytes y = key0; y[i] ^= x; v.push_back({y, iv0}); } for (size_t i = 0; i < ivn; i++) for (int x : xs) { Bytes y = iv0; y[i] ^= x; v.push_back({key0, y}); }
    for (size_t i = 0; i < k.klen && i < ivn; i++) { Bytes y = key0, z = iv0; y[i] ^= 1; z[ivn - 1 - i] ^= 1; v.push_back({y, z}); }
    std::vector<Bytes> w, tg; for (auto& e : v) { Perm p = k.perm(e.first.data()); if (!gcm) { w.push_back(ref_mode(p, k.mode, k.enc, Bytes(e.second.begin(), e.second.begin() + BS), msg)); tg.push_back({}); } else { Bytes j = refgcm::j0_of(p, Bytes(e.second.begin(), e.second.begin() + ivn)); w.push_back(refgcm::gctr(p, j, msg)); tg.push_back(refgcm::tag(p, j, AAD[it % 2], k.enc ? w.back().data() : msg.data(), L)); } }
    auto one = [&](size_t i, int how) { if (how == 0) o->init(v[i].first.data(), v[i].second.data()); else if (how == 1) o->construct(v[i].first.data(), v[i].second.data()); else o->reset(v[i].second.data());
        Bytes out(L + BS, 0xEE); size_t a = 0, b = 0; if (gcm && !k.enc) dynamic_cast<ITag*>(o.get())->set(tg[i].data()); try { o->update(out.data(), &a, msg.data(), L / 2); o->fin(out.data() + a, &b, msg.data() + L / 2, L - L / 2); } catch (std::runtime_error& e) { fail("related", "pair %zu throws: %s", i, e.what()); } trans(3); if (a + b != L || memcmp(out.data(), w[i].data(), L)) fail("related", "wrong output with the pair of key %s and IV %s", hex(v[i].first.data(), k.klen).c_str(), hex(v[i].second.data(), ivn).c_str());
        if (gcm && k.enc) { u8 t[16]; dynamic_cast<ITag*>(o.get())->get(t); if (memcmp(t, tg[i].data(), 16)) fail("related", "wrong tag with key %s and IV %s", hex(v[i].first.data(), k.klen).c_str(), hex(v[i].second.data(), ivn).c_str()); } };
    for (size_t i = 0; i < v.size(); i++) for (int how = 0; how < 3; how++) { at("pair %ld, start %ld", i, how); tick(); if (how == 2 && (gcm || v[i].first != key0)) continue; one(0, 0); one(i, how); one(0, how); one(0, 1); one(i, 0); trace(); state(hashv(0x4e, k.tag, k.mode, k.enc, gcm, i, how)); }
    sample("%s: %zu key and IV pairs that differ from one pair in one octet", k.name().c_str(), v.size());
})
// more than 2^16 messages on one object: whatever it keeps from message to message must not add up
SCENARIO("many messages", [] { return (long)fams.size() * 4; }, [](long it) {
    int pat = (int)(it % 4); const Fam& f = fams[it / 4]; Exp e(f, 1, 1); size_t BS = e.BS; const int N = thorough() ? 140000 : 66000; bool ecb = f.k.mode == ECB && !f.gcm; ctx("%s%s, many messages on one object, pattern %d", f.gcm ? (f.k.enc ? "GCM encrypt " : "GCM decrypt ") : "", f.gcm ? f.k.cname : f.k.name().c_str(), pat);
    std::vector<Exp::Obj> os(1); Exp::Obj& o = os[0]; o.t.reset(f.k.make()); auto start = [&](int k, int v) { o.st = Exp::ACTIVE; o.k = k; o.v = v; o.n = 0; o.keyset = k; };
    o.t->init(e.key[0].data(), e.iv[0].data()); start(0, 0);
    for (int j = 0; j < N; j++) {
        e.hist.clear(); e.hist.push_back("message " + std::to_string(j) + " on this object"); if (j % 500 == 0) { at("message %ld", j); tick(); }
        int how = pat == 0 ? 0 : pat == 1 ? 1 : pat == 2 ? 2 : (int)((j / 3 + j / 700) % 3), v = j & 1; if (f.gcm && how == 0) how = 1 + v; // 0 reset, 1 init, 2 construct
        if (how == 0) { o.t->reset(e.iv[v].data()); start(o.k, ecb ? 0 : v); } else if (how == 1) { o.t->init(e.key[v].data(), e.iv[v].data()); start(v, v); } else { o.t->construct(e.key[0].data(), e.iv[1].data()); start(0, 1); }
        int leave = pat == 0 ? 0 : pat == 1 ? j % 3 : pat == 2 ? 0 : (j / 5) % 3; trans(3); // 0 finished, 1 abandoned, 2 refused (or finished where nothing is refused)
        e.run(o, 1, 0, true); if (pat != 2) e.run(o, BS, 0, true); if (leave == 1) continue; size_t r = o.n % BS; if (leave == 2) e.run(o, r == 0 && BS > 1 ? 1 : 0, 1, false); else e.run(o, (f.gcm || f.k.mode > CBC) && j % 7 ? j % 3 : (BS - r) % BS, 1, true);
    }
    state(hashv(0x4d4d, f.k.tag, f.k.mode, f.k.enc, f.gcm, pat));
})
MC_MAIN
