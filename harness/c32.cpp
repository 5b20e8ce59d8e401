// C32: results do not depend on where buffers and objects live, on when in the program's life the
// library is used, or on what other objects did before or in between.
#define OPS_EARLY
#include <fcntl.h>
#include <sys/wait.h>
#include <ucontext.h>
#include "mc.h"
#include "ops.h"
using namespace mc;
typedef size_t sz;
// ---- placement of buffers --------------------------------------------------
// every region is one mapping; `next` is where the following buffer goes
enum { AREA = 24 << 20, SLOT = 2240 };
static u8* map_at(u64 want, sz n) { u8* p = (u8*)mmap((void*)want, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (want ? MAP_FIXED_NOREPLACE : 0), -1, 0); return p == MAP_FAILED ? nullptr : p; }
struct Areas { u8 *a, *b, *low, *mid, *x, *y; }; // y is exactly 2^32 octets after x; mid straddles the 4 GiB line
static Areas& areas()
{
    static Areas* A = nullptr; if (A) return *A; A = new Areas; A->a = map_at(0, AREA); A->b = map_at(0, AREA); A->low = nullptr; for (u64 w = 0x30000000; w < 0x70000000 && !A->low; w += 0x8000000) A->low = map_at(w, AREA);
    A->mid = map_at(0x100000000 - 4096, AREA); A->x = A->y = nullptr; for (u64 w = 0x200000000000; w < 0x280000000000 && !A->y; w += 0x1000000000) { A->x = map_at(w, AREA); A->y = A->x ? map_at(w + 0x100000000, AREA) : nullptr; if (A->x && !A->y) munmap(A->x, AREA); }
    if (!A->a || !A->b || !A->low || !A->mid || !A->x || !A->y) { fprintf(stderr, "no room for the placements\n"); _exit(90); } return *A;
}
struct Place { const char* name; int kind, i, o, step; }; // kind 0: slots at offsets i (inputs) and o (outputs), moving by step; others see next()
static std::vector<Place> places;
struct PCtx : ops::Ctx {
    const Place& P; u64 dig = 1; int ni = 0, no = 0, salt = -1; sz cur = 0; bool live, keep = false; Bytes log; void (*sw)() = nullptr; void (*fine)() = nullptr;
    explicit PCtx(const Place& p, bool l = true) : P(p), live(l) {}
    u8* next(sz n, bool in)
    {
        Areas& A = areas(); int k = in ? ni++ : no++; sz room = (n + 64 + SLOT - 1) / SLOT * SLOT; if (cur + 2 * room + 4096 > AREA) { fprintf(stderr, "placement area exhausted\n"); _exit(90); }
        switch (P.kind) {
        case 0: { u8* p = (in ? A.a : A.b) + cur + ((in ? P.i : P.o) + k * P.step) % 64; cur += room; return p; }
        case 1: { u8* p = A.a + cur; cur += n; return p; }                          // every buffer starts where the last one ends
        case 2: { cur += n; return A.a + AREA - cur; }                              // every buffer ends where the last one starts
        case 3: { u8* p = A.low + cur; cur += room; return p; }                     // below 4 GiB
        case 4: { u8* p = A.mid + 4096 - P.i + cur; cur += n; return p; }           // across the 4 GiB line
        case 5: { u8* p = (in ? A.x + (sz)k * SLOT * 2 : A.y + (sz)(k + P.i) * SLOT * 2); cur += room; return p; } // the k-th output and the (k+i)-th input are 2^32 octets apart
        case 6: { u8* p = (in ? A.y + (sz)k * SLOT * 2 : A.x + (sz)(k + P.i) * SLOT * 2); cur += room; return p; }
        case 8: { u8* p = (in ? A.low : A.x) + cur + 7; cur += room; return p; }     // the second script of an interleaving
        default: { u8* p = (in ? A.low : A.b) + cur; cur += room; return p; }       // inputs low, outputs high
        }
    }
    const u8* in(const u8* p, sz n) override { u8* d = next(n, true); if (n) memcpy(d, p, n); if (n && salt >= 0 && salt / 2 == ni - 1) d[salt % 2 ? n - 1 : 0] ^= salt % 2 ? 1 : 4; if (fine) fine(); return d; }
    u8* out(sz n) override { u8* d = next(n, false); memset(d, 0xA5, n); if (fine) fine(); return d; }
    void wrote(u8* p, sz n) override { emit(p, n); }
    void emit(const void* p, sz n) override { dig = hash(p, n, dig ^ n * 0x9e37); if (keep) log.insert(log.end(), (const u8*)p, (const u8*)p + n); }
    void step() override { if (live) tick(); if (sw) sw(); }
};
static const Place ref = {"one buffer per 64-octet aligned slot", 0, 0, 0, 0};
static long variants(const ops::Op& o) { return thorough() ? o.weight == ops::LIGHT ? o.thorough / 2 : o.thorough / 4 : o.weight == ops::LIGHT ? o.quick / 2 : o.quick / 2 + 1; }
// ---- early: before the static objects of the library exist ---------------------
enum { EV = 24, MAXOPS = 96 };
struct Life { u64 dig[MAXOPS][EV]; int n; volatile int op, v, done; volatile int died[MAXOPS], diedv[MAXOPS]; };
static Life *early, *late_;
static int evars(int op) { auto& o = ops::all()[op]; return o.weight == ops::LIGHT ? EV : o.weight == ops::HEAVY ? 4 : 2; }
static void life_run(Life* L, int op) { L->op = op; for (int v = 0; v < evars(op); v++) { L->v = v; PCtx c(ref, false); ops::all()[op].fn(c, v); L->dig[op][v] = c.dig | 1; } }
static Life* life_new() { Life* L = (Life*)mmap(nullptr, sizeof(Life), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (L == MAP_FAILED) _exit(90); memset((void*)L->died, 0, sizeof L->died); return L; }
__attribute__((constructor(102))) static void before()
{
    early = life_new(); early->n = (int)ops::all().size(); if (early->n > MAXOPS) _exit(90);
    for (int from = 0; from < early->n;) { // one process as long as nothing dies: each script is the first use of its part
        early->op = from; int st = mc::in_process(120, [&] { int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); life_run(early, from); }); if (st) { early->died[from] = WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st); early->diedv[from] = early->v; } from++;
    }
}
// ---- late: after the static objects of the program were destroyed ----------------
static Life* late_run; static int late_op;
__attribute__((destructor(101))) static void after() { if (!late_run) return; life_run(late_run, late_op); late_run->done = 1; _exit(0); }
// ---- coroutines ------------------------------------------------------------
static ucontext_t back, co[2]; static std::vector<u8>* stk[2]; static bool fin_[2]; static int cur_; static long left_; static PCtx* cc[2]; static int cop[2]; static long cvv[2]; static long steps_; static bool esc_[2];
static void sw_() { if (cur_ < 0) return; steps_++; if (left_ > 0 && --left_ == 0) { int me = cur_; swapcontext(&co[me], &back); } }
static void body(int i) {  try { ops::all()[cop[i]].fn(*cc[i], cvv[i]); } catch (...) { esc_[i] = true; } fin_[i] = true; }
static void start(int i) { if (!stk[i]) stk[i] = new std::vector<u8>(1 << 20); getcontext(&co[i]); co[i].uc_stack.ss_sp = stk[i]->data(); co[i].uc_stack.ss_size = stk[i]->size(); co[i].uc_link = &back; fin_[i] = esc_[i] = false; makecontext(&co[i], (void (*)())body, 1, i); }
static void go(int i, long n) { if (fin_[i]) return; cur_ = i; left_ = n; swapcontext(&back, &co[i]); cur_ = -1; } // run coroutine i for n switch points, or (n = 0) to its end
struct InGen { InGen() { ops::in_gen() = sw_; } ~InGen() { ops::in_gen() = nullptr; } }; // the generator's callback is a switch point too
static const Place two[2] = {{"A", 0, 0, 0, 0}, {"B", 8, 0, 0, 0}};
// ----------------------------------------------------------------------------
struct It { int op; long from, to; }; static std::vector<It> items;
static void alone(int op, long v, const Place& p, u64& d, Bytes* log = nullptr) { PCtx c(p); c.keep = log; ops::all()[op].fn(c, v); d = c.dig; if (log) *log = c.log; }
static void differ(const char* key, int op, long v, const Place& a, const Place& b) { Bytes x, y; u64 d; alone(op, v, a, d, &x); alone(op, v, b, d, &y); sz i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) i++; fail(key, "transcripts differ from octet %zu of %zu", i, x.size()); }
SETUP([] {
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
    for (int a = 1; a < 64; a += a < 17 ? 1 : a < 32 ? 3 : 7) { places.push_back({"both", 0, a, a, 0}); }
    for (int a : {1, 3, 4, 8, 15, 16, 24, 33}) { places.push_back({"inputs", 0, a, 0, 0}); places.push_back({"outputs", 0, 0, a, 0}); places.push_back({"mixed", 0, a, 63 - a, 0}); }
    for (int s : {1, 5, 8, 13}) places.push_back({"moving", 0, 0, 0, s});
    for (int i = 0; i < 4; i++) for (int k : {5, 6}) places.push_back({"4 GiB apart", k, i, 0, 0}); for (int k : {1, 2, 3, 7}) places.push_back({"area", k, 0, 0, 0}); for (int a : {0, 1, 8, 16, 17, 32, 40, 64, 100, 128, 200, 1000}) places.push_back({"4 GiB line", 4, a, 0, 0});
    auto& a = ops::all(); for (int i = 0; i < (int)a.size(); i++) { long n = variants(a[i]), st = a[i].weight == ops::LIGHT ? 50 : 1; for (long v = 0; v < n; v += st) items.push_back({i, v, std::min(n, v + st)}); }
})
static const char* kinds[] = {"offsets", "every buffer directly after the one before", "every buffer directly before the one before", "buffers below 4 GiB", "buffers from before to after the 4 GiB line", "outputs 2^32 octets after inputs", "inputs 2^32 octets after outputs", "inputs below 4 GiB, outputs far above"};
SCENARIO("placement of buffers", [] { return (long)items.size(); }, [](long k) {
    int op = items[k].op; auto& o = ops::all()[op]; sz np = places.size(); for (long v = items[k].from; v < items[k].to; v++) { ctx("%s, variant %ld", o.name, v); at("%s", ref.name); u64 a; alone(op, v, ref, a); state(hashv(1, op, v, a));
        for (sz j = 0; j < np; j++) { if (o.weight != ops::LIGHT && !thorough() && (j + v) % 4) continue; const Place& p = places[j]; at("%s; inputs at %ld, outputs at %ld modulo 64, moving by %ld", kinds[p.kind], (long)p.i, (long)p.o, (long)p.step); u64 b; alone(op, v, p, b); eval(); if (a != b) differ("depends on placement", op, v, ref, p); } trace(); if (v < 1) sample("%s variant %ld: same transcript in %zu placements", o.name, v, np); }
})
SCENARIO("before main", [] { return (long)ops::all().size(); }, [](long op) {
    if (!early) return; auto& o = ops::all()[op]; for (int v = 0; v < evars(op); v++) { ctx("%s, variant %d, run by a constructor function before the library's static objects are made", o.name, v); at("variant %ld", v); u64 a; alone(op, v, ref, a); eval(); state(hashv(2, op, v, a)); if (early->died[op] && early->diedv[op] == v) fail("died before main", "the script ended with %s %d", early->died[op] >= 1000 ? "exit status" : "signal", early->died[op] % 1000); if (early->dig[op][v] != (a | 1)) fail("differs before main", "transcript %lx, in main %lx", early->dig[op][v], a); } trace();
})
SCENARIO("after main", [] { return (long)ops::all().size(); }, [](long op) {
    auto& o = ops::all()[op]; Life* L = life_new(); ctx("%s, run in main and again by a destructor function after static objects were destroyed", o.name); at("first run in main, second after exit"); u64 want[EV]; for (int v = 0; v < evars(op); v++) alone(op, v, ref, want[v]);
    int st = in_process(120, [&] { late_run = L; late_op = (int)op; exit(0); }); tick();
    if (st || !L->done) fail("died after main", "variant %d ended with %s %d", L->v, WIFSIGNALED(st) ? "signal" : "exit status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); for (int v = 0; v < evars(op); v++) { eval(); state(hashv(3, op, v, want[v])); if (L->dig[op][v] != (want[v] | 1)) fail("differs after main", "variant %d: transcript %lx, in main %lx", v, L->dig[op][v], want[v]); } trace(); munmap(L, sizeof *L);
})
// A, then B, then A and B again, in a process in which nothing else was run: B as in a process of its own
struct Sh { u64 d[8]; volatile int done; };
static bool in_child(void (*f)(Sh*, int, long, int, long), int oa, long va, int ob, long vb, u64* d, int n, bool maydie = false)
{
    Sh* S = (Sh*)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); int st = in_process(100, [&] { f(S, oa, va, ob, vb); S->done = 1; }); tick();
    if ((st || !S->done) && maydie) { munmap(S, sizeof *S); return false; } if (st || !S->done) fail("died", "ended with %s %d", WIFSIGNALED(st) ? "signal" : "exit status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); memcpy(d, S->d, n * 8); munmap(S, sizeof *S); return true;
}
static void one(Sh* S, int op, long v, int, long) { PCtx c(ref, false); ops::all()[op].fn(c, v); S->d[0] = c.dig; }
static void chain(Sh* S, int oa, long va, int ob, long vb) { int o[5] = {oa, ob, oa, ob, ob}; long v[5] = {va, vb, va, vb, vb}; for (int i = 0; i < 5; i++) { PCtx c(ref, false); ops::all()[o[i]].fn(c, v[i]); S->d[i] = c.dig; } }
// the same script with one input changed in its first or last octet: same sizes, same addresses, other contents
static void salted(Sh* S, int op, long v, int salt, long) { PCtx c(ref, false); c.salt = salt; try { ops::all()[op].fn(c, v); } catch (...) { c.str("escaped"); } S->d[0] = c.dig; }
static void schain(Sh* S, int op, long v, int salt, long) { for (int i = 0; i < 4; i++) { PCtx c(ref, false); c.salt = i % 2 ? salt : -1; try { ops::all()[op].fn(c, v); } catch (...) { c.str("escaped"); } S->d[i] = c.dig; } }
static bool heavy(int op) { return ops::all()[op].weight != ops::LIGHT; }
static u64 fresh(int op, long v) { static std::vector<std::pair<std::pair<int, long>, u64>>* memo = new std::vector<std::pair<std::pair<int, long>, u64>>; for (auto& m : *memo) if (m.first.first == op && m.first.second == v) return m.second; u64 d; in_child(one, op, v, 0, 0, &d, 1); memo->push_back({{op, v}, d}); return d; }
static void pair_(int oa, long va, int ob, long vb)
{
    ctx("%s variant %ld and %s variant %ld", ops::all()[oa].name, va, ops::all()[ob].name, vb); at("each first in a process of its own"); u64 a = fresh(oa, va), b = fresh(ob, vb), d[5]; at("A, B, A, B, B in a fresh process"); in_child(chain, oa, va, ob, vb, d, 5); for (int i = 0; i < 5; i++) { trans(); u64 w = i == 0 || i == 2 ? a : b; if (d[i] != w) fail("depends on the past", "run %d of A, B, A, B, B gives transcript %lx instead of %lx", i + 1, d[i], w); } trace(); eval(); state(hashv(4, hashv(oa, va), hashv(ob, vb), b));
}
static long pv(int op) { return heavy(op) ? thorough() ? 6 : 4 : thorough() ? 24 : 12; }
SCENARIO("pairs of scripts", [] { return (long)ops::all().size(); }, [](long oa) {
    int n = (int)ops::all().size(); for (int ob = 0; ob < n; ob++) { if (ob == oa) continue; for (long s = 0; s < (heavy(oa) || heavy(ob) ? 1 : thorough() ? 4 : 2); s++) pair_((int)oa, s * 3 + 1, ob, s + 2); }
})
SCENARIO("pairs of variants", [] { return (long)ops::all().size(); }, [](long op) { long n = pv((int)op); for (long a = 0; a < n; a++) for (long b = 0; b < n; b++) if (a != b) pair_((int)op, a, (int)op, b); })
SCENARIO("changed inputs", [] { return (long)ops::all().size() * 2; }, [](long it) {
    int op = (int)(it / 2); auto& o = ops::all()[op]; bool h = heavy(op), vh = o.weight == ops::VHEAVY; for (long v = it % 2; v < (vh ? 4 : h ? 6 : thorough() ? 40 : 16); v += 2) { PCtx cnt(ref); o.fn(cnt, v); long n = std::min(cnt.ni, vh ? 16 : h ? 12 : 30); u64 a = fresh(op, v), b, d[4];
        for (int s = 0; s < 2 * n; s++) { if (h && !thorough() && (s + s / 2) % 2) continue; ctx("%s, variant %ld", o.name, v); at("input %ld with its last (1) or first (0) octet changed: %ld; in a process of its own", (long)s / 2, (long)s % 2); if (!in_child(salted, op, v, s, 0, &b, 1, true)) continue; at("unchanged, input %ld changed in its last (1) or first (0) octet: %ld, unchanged, changed", (long)s / 2, (long)s % 2); in_child(schain, op, v, s, 0, d, 4); eval(); trace(); trans(4); state(hashv(7, hashv(op, v), s, b)); for (int i = 0; i < 4; i++) if (d[i] != (i % 2 ? b : a)) fail("depends on the past", "run %d of unchanged, changed, unchanged, changed gives transcript %lx instead of %lx", i + 1, d[i], i % 2 ? b : a); } }
})
// two scripts interleaved in one thread
static long count_steps(int op, long v, bool fine) { InGen ig; PCtx c(two[0]); cc[0] = &c; cop[0] = op; cvv[0] = v; c.sw = sw_; if (fine) c.fine = sw_; start(0); steps_ = 0; go(0, 0); return steps_; }
static void inter(int oa, long va, int ob, long vb, bool fine, long i, long j, u64 a, u64 b)
{
    InGen ig; PCtx ca(two[0]), cb(two[1]); cc[0] = &ca; cc[1] = &cb; cop[0] = oa; cop[1] = ob; cvv[0] = va; cvv[1] = vb; ca.sw = cb.sw = sw_; if (fine) ca.fine = cb.fine = sw_; start(0); start(1);
    if (i < 0) while (!fin_[0] || !fin_[1]) { go(0, 1); go(1, 1); trans(2); } else { if (i) go(0, i); if (j) go(1, j); else go(1, 0); go(0, 0); go(1, 0); trans(4); }
    if (esc_[0] || esc_[1]) fail("exception", "a script left with an exception"); if (ca.dig != a || cb.dig != b) fail("depends on interleaving", "A gives %lx (alone %lx), B gives %lx (alone %lx)", ca.dig, a, cb.dig, b); trace();
}
static void weave(int oa, long va, int ob, long vb, int depth)
{
    bool fine = !heavy(oa) && !heavy(ob); u64 a, b; ctx("%s variant %ld interleaved with %s variant %ld", ops::all()[oa].name, va, ops::all()[ob].name, vb); at("alone"); alone(oa, va, two[0], a); alone(ob, vb, two[1], b); long na = count_steps(oa, va, fine), nb = count_steps(ob, vb, fine); if (fine && (na + 1) * (nb + 1) > (thorough() ? 20000 : 2500)) { fine = false; na = count_steps(oa, va, false); nb = count_steps(ob, vb, false); } eval(); state(hashv(5, hashv(oa, va), hashv(ob, vb), hashv(a, b)));
    at("switching at every point"); inter(oa, va, ob, vb, fine, -1, 0, a, b); for (long i = 0; i <= na; i++) for (long j = 0; j <= (depth > 1 ? nb : 0); j++) { at("A runs to switch point %ld of %ld, B to %ld of %ld (0: its end)", i, na, j, nb); inter(oa, va, ob, vb, fine, i, j, a, b); }
}
SCENARIO("interleaved scripts", [] { return (long)ops::all().size(); }, [](long oa) { int n = (int)ops::all().size(); for (int ob = 0; ob < n; ob++) if (ob != oa && (thorough() || !(heavy((int)oa) && heavy(ob)) || (oa + ob) % 3 == 0)) weave((int)oa, 2, ob, 5, thorough() && !heavy((int)oa) && !heavy(ob) ? 2 : 1); })
SCENARIO("interleaved variants", [] { return (long)ops::all().size(); }, [](long op) { bool h = heavy((int)op), vh = ops::all()[op].weight == ops::VHEAVY; long n = vh ? 2 : h ? 2 : thorough() ? 8 : 4; for (long a = 0; a < n; a++) for (long b = 0; b < n; b++) if (a != b) weave((int)op, a * 3 + 1, (int)op, b * 3 + 1, vh ? 1 : 2); })
// ---- placement of objects --------------------------------------------------
// every class built in the last octets before an inaccessible page and at every offset its alignment allows, from memory filled with several values; copied and assigned across offsets
struct ObjOp { const char* name; sz size, align; void (*run)(PCtx&, long v, u8* x, u8* y, u8 fillv, int how); };
static const u8* remains; static u8* snapshot; // what the memory held before, instead of one value; where the object built is copied to
template <class T, class Make, class Use> static void obj(PCtx& c, u8* x, u8* y, u8 fillv, int how, Make make, Use use)
{
    memset(x, fillv, sizeof(T)); memset(y, (u8)~fillv, sizeof(T)); if (remains) memcpy(x, remains, sizeof(T)); asm volatile("" ::: "memory"); T* a = make(x); if (snapshot) memcpy(snapshot, (void*)x, sizeof(T)); T* b = nullptr; switch (how) { case 0: b = a; break; case 1: b = new (y) T(*a); break; case 2: b = make(y); *b = *a; break; case 3: b = new (y) T(std::move(*a)); break; } use(*b); if (how == 1 || how == 2) use(*a); if (b != a) b->~T(); a->~T(); memset(x, 0, sizeof(T)); (void)c;
}
template <class C> static void o_cipher(PCtx& c, long v, u8* x, u8* y, u8 f, int how) { obj<C>(c, x, y, f, how, [&](u8* at) { C* p = new (at) C; p->set_key(ops::fin(c, v, C::USER_KEY_LEN), v % 2 ? C::ENCRYPTION : C::DECRYPTION); return p; }, [&](C& k) { for (sz n : {1, 2, 5, 17, 35}) { const u8* i = ops::fin(c, v + n, n * 16); u8* o = c.out(n * 16); if (v % 2) k.encrypt_blocks(o, i, n); else k.decrypt_blocks(o, i, n); c.wrote(o, n * 16); } }); }
template <class M, bool IV> static void o_mode(PCtx& c, long v, u8* x, u8* y, u8 f, int how) { obj<M>(c, x, y, f, how, [&](u8* at) { const u8 *k = ops::fin(c, v, M::USER_KEY_LEN), *iv = ops::fin(c, v + 1, 16); M* m; if constexpr (IV) { m = new (at) M; m->init(k, iv); } else { m = new (at) M; m->init(k); } u8* o = c.out(80); sz w; m->update(o, &w, ops::fin(c, v + 2, 37), 37); c.wrote(o, w); return m; }, [&](M& m) { for (sz n : {5, 300, 11}) { u8* o = c.out(n + 16); sz w; m.update(o, &w, ops::fin(c, v + n, n), n); c.num(w); c.wrote(o, w); } ops::guarded(c, [&] { u8* o = c.out(64); sz w; m.do_final(o, &w, ops::fin(c, v, 15), 15); c.num(w); c.wrote(o, w); }); }); }
template <class C> static void o_gcm(PCtx& c, long v, u8* x, u8* y, u8 f, int how) { typedef block_cipher_mode::GcmEncryptor<C> M; obj<M>(c, x, y, f, how, [&](u8* at) { M* m = new (at) M; m->init(ops::fin(c, v, C::USER_KEY_LEN), ops::fin(c, v + 1, 12 + v % 9), 12 + v % 9, ops::fin(c, v + 2, 21), 21); u8* o = c.out(80); sz w; m->update(o, &w, ops::fin(c, v + 2, 37), 37); c.wrote(o, w); return m; }, [&](M& m) { u8* o = c.out(400); sz w; m.update(o, &w, ops::fin(c, v + 3, 300), 300); c.wrote(o, w); o = c.out(64); m.do_final(o, &w, ops::fin(c, v, 15), 15); c.wrote(o, w); u8* t = c.out(16); m.get_tag(t); c.wrote(t, 16); }); }
template <class H> static void o_hash(PCtx& c, long v, u8* x, u8* y, u8 f, int how) { obj<H>(c, x, y, f, how, [&](u8* at) { H* h = new (at) H; if constexpr (std::is_same<H, ghash::GHash>::value) h->set_key(ops::fin(c, v, 16)); if constexpr (std::is_same<H, hash_lib::HMac<sm3::SM3>>::value) h->set_key(ops::fin(c, v, 40 + v % 50), 40 + v % 50); sz n = std::is_same<H, ghash::GHash>::value ? 48 : 37 + v; h->update(ops::fin(c, v + 1, n), n); return h; }, [&](H& h) { sz n = std::is_same<H, ghash::GHash>::value ? 160 : 300 + v; h.update(ops::fin(c, v + 2, n), n); u8* o = c.out(32); ops::guarded(c, [&] { h.do_final(o); c.wrote(o, std::is_same<H, ghash::GHash>::value ? 16 : 32); }); }); }
static void o_sm2(PCtx& c, long v, u8* x, u8* y, u8 f, int how) { obj<ops::K2>(c, x, y, f, how, [&](u8* at) { ops::K2* k = new (at) ops::K2; ops::mk2(c, *k, v); return k; }, [&](ops::K2& k) { ops::sm2_sign(c, k, v); ops::sm2_crypt(c, k, v); }); }
static void o_sm2p(PCtx& c, long v, u8* x, u8* y, u8 f, int how) { obj<ops::P2k>(c, x, y, f, how, [&](u8* at) { ops::K2 k; ops::mk2(c, k, v); u8 *px = c.out(32), *py = c.out(32); k.fetch_pub().get_pub(px, py); ops::P2k* p = new (at) ops::P2k; p->set_pub(px, py); return p; }, [&](ops::P2k& p) { u8 *px = c.out(32), *py = c.out(32); p.get_pub(px, py); c.wrote(px, 32); c.wrote(py, 32); ops::Rng r(v); sz w; u8* o = c.out(200); p.encrypt(o, &w, ops::fin(c, v, 50), 50, r, (sm2::SM2EcPC)(v % 3)); c.wrote(o, w); }); }
static void o_sm9m(PCtx& c, long v, u8* x, u8* y, u8 f, int how) { obj<ops::M9>(c, x, y, f, how, [&](u8* at) { ops::M9* k = new (at) ops::M9; ops::mk9(c, *k, v % 3); return k; }, [&](ops::M9& k) { ops::out9(c, k); ops::K9 u; ops::sm9_extract(c, k, u, v); ops::out9(c, u); }); }
static void o_sm9u(PCtx& c, long v, u8* x, u8* y, u8 f, int how) { ops::M9 m; ops::mk9(c, m, v % 3); obj<ops::K9>(c, x, y, f, how, [&](u8* at) { ops::K9* k = new (at) ops::K9; ops::sm9_extract(c, m, *k, v); return k; }, [&](ops::K9& k) { ops::sm9_sign(c, k, m.fetch_SignPublicKey(), v, how == 1); }); }
namespace BM = block_cipher_mode;
#define OBJ(name, T, ...) {name, sizeof(T), alignof(T), __VA_ARGS__}
#define MODES(n, C) OBJ(n " ECB", BM::EcbEncryptor<C>, o_mode<BM::EcbEncryptor<C>, false>), OBJ(n " ECB decryption", BM::EcbDecryptor<C>, o_mode<BM::EcbDecryptor<C>, false>), OBJ(n " CBC", BM::CbcEncryptor<C>, o_mode<BM::CbcEncryptor<C>, true>), OBJ(n " CBC decryption", BM::CbcDecryptor<C>, o_mode<BM::CbcDecryptor<C>, true>), OBJ(n " CFB", BM::CfbEncryptor<C>, o_mode<BM::CfbEncryptor<C>, true>), OBJ(n " CFB decryption", BM::CfbDecryptor<C>, o_mode<BM::CfbDecryptor<C>, true>), OBJ(n " OFB", BM::OfbEncryptor<C>, o_mode<BM::OfbEncryptor<C>, true>), OBJ(n " CTR", BM::CtrEncryptor<C>, o_mode<BM::CtrEncryptor<C>, true>), OBJ(n " GCM", BM::GcmEncryptor<C>, o_gcm<C>), OBJ(n, C, o_cipher<C>)
static const ObjOp OBJS[] = {MODES("SM4", sm4::SM4), MODES("AES-128", aes::AES128), MODES("AES-192", aes::AES192), MODES("AES-256", aes::AES256), OBJ("SM3", sm3::SM3, o_hash<sm3::SM3>), OBJ("GHASH", ghash::GHash, o_hash<ghash::GHash>), OBJ("HMAC", hash_lib::HMac<sm3::SM3>, o_hash<hash_lib::HMac<sm3::SM3>>), OBJ("SM2 private key", ops::K2, o_sm2), OBJ("SM2 public key", ops::P2k, o_sm2p), OBJ("SM9 master key", ops::M9, o_sm9m), OBJ("SM9 user key", ops::K9, o_sm9u)};
SCENARIO("placement of objects", sizeof OBJS / sizeof *OBJS * 4, [](long it) {
    remains = nullptr; snapshot = nullptr; const ObjOp& o = OBJS[it / 4]; int how = (int)(it % 4); static const char* hw[] = {"used where it was built", "copied", "assigned", "moved"}; bool pk = it / 4 >= (long)(sizeof OBJS / sizeof *OBJS) - 4, vh = it / 4 >= (long)(sizeof OBJS / sizeof *OBJS) - 2; Guard g(o.size + 4096), h(o.size + 4096);
    for (long v = 0; v < (vh ? 1 : pk ? 2 : thorough() ? 40 : 8); v++) { u64 a = 0; bool first = true; for (u8 fv : {0x00, 0xFF, 0xA5}) for (sz d = 0; d <= 64; d += o.align) { if (vh && fv != 0xA5) continue; u8 *x = g.tail(o.size) - d, *y = h.tail(o.size) - (64 - d) / o.align * o.align; // d = 0: ends at the page end
            if ((uintptr_t)x % o.align) x -= (uintptr_t)x % o.align; if ((uintptr_t)y % o.align) y -= (uintptr_t)y % o.align; ctx("%s, variant %ld, %s", o.name, v, hw[how]); at("object of %ld octets, %ld octets before an inaccessible page, in memory filled with %ld", (long)o.size, (long)d, (long)fv); PCtx c(ref); o.run(c, v, x, y, fv, how); eval(); if (first) { a = c.dig; first = false; state(hashv(6, it, v, a)); } else if (c.dig != a) fail("depends on placement of the object", "transcript %lx, %lx at the first place", c.dig, a); }
        trace(); }
})
// objects built where two earlier objects of the class left their octets: the first part of one, the rest of the other, for every cut
SCENARIO("remains of objects", sizeof OBJS / sizeof *OBJS, [](long it) {
    remains = nullptr; snapshot = nullptr; const ObjOp& o = OBJS[it]; bool vh = it >= (long)(sizeof OBJS / sizeof *OBJS) - 2; Guard g(o.size + 64), h(o.size + 64); u8 *x = g.tail(o.size), *y = h.tail(o.size); x -= (uintptr_t)x % o.align; y -= (uintptr_t)y % o.align; const int n = 3; std::vector<u8> im[n]; u64 want[n];
    for (int v = 0; v < n; v++) { im[v].resize(o.size); ctx("%s, variant %d", o.name, v); snapshot = im[v].data(); PCtx c(ref); o.run(c, v, x, y, 0, 0); snapshot = nullptr; want[v] = c.dig; state(hashv(7, it, v, c.dig)); }
    std::vector<u8> m(o.size); for (int v = 0; v < n; v++) for (int w = 0; w < n; w++) for (int side = 0; side < 2; side++) { if (v == w && side) continue; sz step = vh ? 32 : o.size > 400 ? 16 : 8; for (sz cut = 0; cut <= o.size; cut += step) { if (v == w && cut) break;
        if (!side) { memcpy(m.data(), im[v].data(), cut); memcpy(m.data() + cut, im[w].data() + cut, o.size - cut); } else { memcpy(m.data(), im[w].data(), cut); memcpy(m.data() + cut, im[v].data() + cut, o.size - cut); }
        ctx("%s, variant %d", o.name, v); at("built on the remains of variants %ld and %ld, cut at %ld", side ? w : v, side ? v : w, cut); remains = m.data(); PCtx c(ref); o.run(c, v, x, y, 0, 0); remains = nullptr; eval(); if (c.dig != want[v]) fail("depends on what the memory held", "transcript %lx, %lx in cleared memory", c.dig, want[v]); } trace(); }
})
MC_MAIN
