// C28: scripts of ops.h on two or three real threads under a controlled scheduler.
#include <fcntl.h>
#include <sched.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include "mc.h"
#include "ops.h"
#include "c28rt.h"
using namespace mc;
#define PLAIN __attribute__((disable_sanitizer_instrumentation))
struct TCtx final : ops::Ctx {
    u64 dig = 1; PLAIN TCtx() {}
    PLAIN const u8* in(const u8* p, size_t n) override { u8* q = (u8*)rt::own(n); for (size_t i = 0; i < n; i++) q[i] = p[i]; return q; }
    PLAIN u8* out(size_t n) override { size_t* z = (size_t*)rt::own(n + 16); z[0] = n; u8* q = (u8*)(z + 2); for (size_t i = 0; i < n; i++) q[i] = 0xA5; return q; }
    PLAIN void wrote(u8* p, size_t n) override { size_t cap = ((size_t*)p)[-2]; emit(p, n > cap ? cap : n); }
    PLAIN void emit(const void* p, size_t n) override { const u8* b = (const u8*)p; u64 h = dig ^ (n * 0x9e3779b97f4a7c15ull); for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull, h ^= h >> 29; dig = h; }
    PLAIN void step() override { rt::event(); }
};
// shared objects, built once by the main thread before any thread exists
struct Shared9 { ops::M9 m; ops::P9k p; ops::K9 k; };
struct Shared2 { ops::K2 k; };
struct SharedC { sm4::SM4 se, sd; aes::AES128 a1e, a1d; aes::AES192 a2e, a2d; aes::AES256 a3e, a3d; sm3::SM3 h; ghash::GHash g; };
static const Shared2* s2; static const Shared9* s9; static const SharedC* sc; static const u8* msg; // common input
typedef void (*Sh)(ops::Ctx&, long);
struct ShOp { const char* name; int weight; Sh fn; };
template <class C> static void blk(ops::Ctx& c, const C& e, const C& d, long v) { u8* o = c.out(16 * 19); e.encrypt_block(o, msg + v); c.wrote(o, 16); c.step(); d.decrypt_block(o, msg + v); c.wrote(o, 16); c.step(); e.encrypt_blocks(o, msg + v, 3 + v % 17); c.wrote(o, 16 * (3 + v % 17)); c.step(); d.decrypt_blocks(o, msg + v, 1 + v % 19); c.wrote(o, 16 * (1 + v % 19)); c.step(); C cp(e); cp.encrypt_block(o, msg); c.wrote(o, 16); }
static const ShOp SH[] = {
    {"one SM4 object", 0, [](ops::Ctx& c, long v) { blk(c, sc->se, sc->sd, v); }}, {"one AES-128 object", 0, [](ops::Ctx& c, long v) { blk(c, sc->a1e, sc->a1d, v); }}, {"one AES-192 object", 0, [](ops::Ctx& c, long v) { blk(c, sc->a2e, sc->a2d, v); }}, {"one AES-256 object", 0, [](ops::Ctx& c, long v) { blk(c, sc->a3e, sc->a3d, v); }},
    {"copies of one SM3 object", 0, [](ops::Ctx& c, long v) { sm3::SM3 h(sc->h); c.step(); u8* o = c.out(32); h.do_final(o, msg, v * 7 % 130); c.wrote(o, 32); }}, {"copies of one GHASH object", 0, [](ops::Ctx& c, long v) { ghash::GHash h(sc->g); c.step(); u8* o = c.out(16); h.do_final(o, msg, 16 * (v % 9)); c.wrote(o, 16); }},
    {"one SM2 key: sign, verify", 1, [](ops::Ctx& c, long v) { ops::sm2_sign(c, s2->k, v); }}, {"one SM2 key: encrypt, decrypt", 1, [](ops::Ctx& c, long v) { ops::sm2_crypt(c, s2->k, v); }},
    {"one SM2 key: export", 0, [](ops::Ctx& c, long v) { u8 *o = c.out(32), *x = c.out(32), *y = c.out(32); s2->k.get_priv(o); c.wrote(o, 32); c.step(); s2->k.fetch_pub().get_pub(x, y); c.wrote(x, 32); c.wrote(y, 32); c.step(); ops::P2k p(s2->k.fetch_pub()); p.get_pub(x, y); c.wrote(x, 32); c.step(); ops::K2 k(s2->k); k.get_priv(o); c.wrote(o, 32); }},
    {"one SM9 user key: sign", 1, [](ops::Ctx& c, long v) { ops::sm9_sign(c, s9->k, s9->p, v, false); }}, {"one SM9 user and public key: sign, verify", 2, [](ops::Ctx& c, long v) { ops::sm9_sign(c, s9->k, s9->p, v); }},
    {"one SM9 master key: extract", 1, [](ops::Ctx& c, long v) { ops::K9 k; ops::sm9_extract(c, s9->m, k, v); ops::out9(c, k); }}, {"SM9 keys: export", 1, [](ops::Ctx& c, long v) { ops::out9(c, s9->m); c.step(); ops::out9(c, s9->k); c.step(); ops::P9k p(s9->p); u8 *x = c.out(64), *y = c.out(64); p.get_pub(x, y); c.wrote(x, 64); c.wrote(y, 64); }},
};
enum { NSH = sizeof SH / sizeof *SH };
struct Script { int op; long v; }; // op >= 1000: shared-object script
static const char* nm(const Script& s) { return s.op >= 1000 ? SH[s.op - 1000].name : ops::all()[s.op].name; }
static int wt(const Script& s) { return s.op >= 1000 ? SH[s.op - 1000].weight : ops::all()[s.op].weight; }
// Called in the child that runs the schedules, before its threads exist: the process that forks the
// children never calls the library, so every run of other scripts is the first use of the library.
PLAIN static void build(const Script* s, int n)
{
    for (int i = 0; i < n; i++) if (s[i].op >= 1000) {
        int k = s[i].op - 1000; if (!msg) { u8* mm = new u8[2048]; fill(mm, 2048, 12); msg = mm; }
        if (k < 6 && !sc) { auto* c = new SharedC; const u8* mm = msg; c->se.set_key(mm, sm4::SM4::ENCRYPTION); c->sd.set_key(mm, sm4::SM4::DECRYPTION); c->a1e.set_key(mm, aes::AES128::ENCRYPTION); c->a1d.set_key(mm, aes::AES128::DECRYPTION); c->a2e.set_key(mm, aes::AES192::ENCRYPTION); c->a2d.set_key(mm, aes::AES192::DECRYPTION); c->a3e.set_key(mm, aes::AES256::ENCRYPTION); c->a3d.set_key(mm, aes::AES256::DECRYPTION); c->h.update(mm, 77); c->g.set_key(mm); c->g.update(mm, 64); sc = c; }
        if (k >= 6 && k < 9 && !s2) { auto* x2 = new Shared2; u8 b[32]; ops::val(b, 7); b[0] = 0x22; x2->k.set_priv(b); s2 = x2; }
        if (k >= 9 && !s9) { auto* x9 = new Shared9; u8 b[32]; ops::val(b, 16); b[0] = 0x23; x9->m.set_priv(b); x9->p = x9->m.fetch_SignPublicKey(); ops::Rng r(3); x9->k = x9->m.gen_SignPrivateKey((const u8*)"shared", 6, r); s9 = x9; }
    }
}
struct Arg { Script s; u64 dig; int esc; };
PLAIN static void thread_body(void* x)
{
    Arg* a = (Arg*)x; TCtx c; Script s = a->s;
    rt::quiet(true); ops::Fn f = s.op >= 1000 ? SH[s.op - 1000].fn : ops::all()[s.op].fn; rt::quiet(false);
    try { f(c, s.v); } catch (...) { c.str("unexpected exception"); }
    a->dig = c.dig;
}
struct Sched { int first; int np; rt::Pre p[rt::MAXP]; };
enum { BATCH = 4096 };
struct Out { long done; rt::Result r; long stop; rt::Result rs[BATCH]; };
static Out* out; static char desc[300];
// Runs the schedules i.. of one batch in forked children; a child whose run wrote memory that outlives
// the run executes no further schedule, so every schedule starts from the state before any thread ran.
static void batch(const Script* s, int n, const Sched* sc_, long cnt, bool fine)
{
    int stalls = 0; // CPU seconds decide that a schedule does not end; one ended by the wall clock or from outside is tried again
    for (long i = 0; i < cnt;) {
        out->done = i; out->stop = 0; fflush(stderr); pid_t p = fork(); if (p < 0) { perror("fork"); _exit(90); }
        if (!p) {
            prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGPROF, SIG_DFL); itimerval z = {{0, 0}, {thorough() ? 120 : 60, 0}}; setitimer(ITIMER_PROF, &z, nullptr); alarm(120); build(s, n);
            for (long k = i; k < cnt; k++) { Arg a[rt::NT]; rt::Job j[rt::NT]; for (int t = 0; t < n; t++) { a[t] = {s[t], 0, 0}; j[t] = {thread_body, &a[t]}; } setitimer(ITIMER_PROF, &z, nullptr); alarm(120); rt::Result& r = out->rs[k]; rt::run(n, j, sc_[k].first, sc_[k].p, sc_[k].np, fine, &r); for (int t = 0; t < n; t++) r.dig[t] = a[t].dig; out->done = k + 1; if (r.dirty || r.bad) _exit(0); }
            _exit(0);
        }
        int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} tick();
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { i = out->done; continue; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { out->done = i = out->done + 1; continue; } // recorded in the result
        if (WIFEXITED(st) && WEXITSTATUS(st) == 90) _exit(90);
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL) && stalls++ < 2) { i = out->done; continue; }
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) _exit(90);
        if (n == 1) { out->rs[0].bad = 9; return; } // it fails alone: nothing to do with other threads
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF)) fail("threads do not finish", "%s, schedule %ld", desc, out->done);
        fail("crash in threads", "%s: status %x", desc, st);
    }
}
static void judge(const Script* s, int n, const u64* want, const Sched& q, const rt::Result& r)
{
    trace(); trans(r.events + 1); char sch[200] = ""; int o = snprintf(sch, sizeof sch, "thread %d first", q.first); for (int i = 0; i < q.np; i++) o += snprintf(sch + o, sizeof sch - o, ", event %ld -> thread %d", q.p[i].ev, q.p[i].to);
    if (r.bad) fail(r.bad == 1 ? "race" : "deadlock", "%s (schedule: %s): %s", desc, sch, r.msg);
    for (int t = 0; t < n; t++) if ((r.dig[t] | 1) != want[t]) fail("result differs", "%s: thread %d (%s) got a result it does not get alone, schedule: %s", desc, t, nm(s[t]), sch);
    state(hashv(s[0].op, s[0].v, s[1].op, s[1].v, n > 2 ? s[2].op : -1, q.first, q.np, q.np > 0 ? q.p[0].ev : -1, q.np > 1 ? q.p[1].ev : -1, q.np > 2 ? q.p[2].ev : -1));
}
static std::map<std::pair<int, long>, u64>& alone_cache() { static std::map<std::pair<int, long>, u64> m; return m; }
static u64 alone(const Script& s) { auto k = std::make_pair(s.op, s.v); auto& m = alone_cache(); auto it = m.find(k); if (it != m.end()) return it->second; Sched q = {0, 0, {}}; batch(&s, 1, &q, 1, false); if (out->rs[0].bad == 9) return m[k] = 0; if (out->rs[0].bad) fail("deadlock", "%s alone: %s", nm(s), out->rs[0].msg); return m[k] = out->rs[0].dig[0] | 1; }
// all schedules of the scripts with at most `bound` preemptions
static long explore(const Script* s, int n, int bound, bool fine = false)
{
    int o = 0; for (int i = 0; i < n; i++) o += snprintf(desc + o, sizeof desc - o, "%s%s (%ld)", i ? " | " : "", nm(s[i]), s[i].v); ctx("%s", desc); u64 want[rt::NT]; for (int i = 0; i < n; i++) { want[i] = alone(s[i]); if (!want[i]) { sample("%s: not judged, %s does not finish alone", desc, nm(s[i])); return 0; } }
    long total = 0;
    for (int round = 0; round < 6; round++) {
        bool grew = false; total = 0; std::vector<Sched> level, next; for (int f = 0; f < n; f++) level.push_back({f, 0, {}});
        if (fine) { batch(s, n, &level[0], 1, fine); long lim = thorough() ? 60000 : 2500; if (out->rs[0].events > lim) { sample("%s: %ld function entries, left out (limit %ld)", desc, out->rs[0].events, lim); return 0; } }
        for (int b = 0; b <= bound && level.size(); b++) {
            next.clear(); if (b && (double)level.size() * out->rs[0].accesses > (thorough() ? 4e11 : 2e10)) { sample("%s: %zu schedules with %d preemptions are too many, explored up to %d", desc, level.size(), b, b - 1); break; }
            for (size_t at_ = 0; at_ < level.size(); at_ += BATCH) {
                long c = std::min<size_t>(BATCH, level.size() - at_); batch(s, n, &level[at_], c, fine); std::vector<rt::Result> rs(out->rs, out->rs + c);
                for (long i = 0; i < c; i++) { const Sched& q = level[at_ + i]; const rt::Result& r = rs[i]; judge(s, n, want, q, r); total++; if (r.hotgrew) grew = true; if (b < bound && next.size() + r.events < 8000000) for (long e = q.np ? q.p[q.np - 1].ev + 1 : 0; e < r.events; e++) for (int to = 0; to < n; to++) { if (n == 2 && to) break; Sched x = q; x.p[x.np++] = {e, n == 2 ? -1 : to}; next.push_back(x); } }
            }
            level.swap(next);
        }
        if (!grew) break; // new shared locations became scheduling points: explore again with them
    }
    return total;
}
static int nops() { return (int)ops::all().size(); }
static std::vector<std::pair<Script, Script>> same, sweep, cross, shared, fine_; static std::vector<std::vector<Script>> triple;
SETUP([] {
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); rt::init(); out = (Out*)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); bool T = thorough();
    int N = nops(); auto& a = ops::all();
    for (int i = 0; i < N; i++) { int w = a[i].weight; long nv = w == 0 ? (T ? 60 : 16) : w == 1 ? (T ? 12 : 4) : (T ? 4 : 1); for (long v = 0; v < nv; v++) same.push_back({{i, v * (w ? 1 : 3)}, {i, v * (w ? 1 : 3) + v % 2}}); }
    for (int i = 0; i < N; i++) { int w = a[i].weight; long nv = w == 0 ? a[i].quick : w == 1 ? (T ? a[i].thorough : a[i].quick) / 2 : (T ? 24 : 4); for (long v = 0; v < nv; v += T && !w ? 1 : 1) sweep.push_back({{i, v}, {i, v + 1}}); }
    for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) for (long k = 0; k < (a[i].weight + a[j].weight == 0 ? (T ? 8 : 2) : (T ? 2 : 1)); k++) if (T || a[i].weight + a[j].weight < 3) cross.push_back({{i, 5 + 8 * k}, {j, 6 + 5 * k}});
    for (int i = 0; i < NSH; i++) for (int j = 0; j <= i; j++) { int w = SH[i].weight + SH[j].weight; for (long k = 0; k < (w == 0 ? (T ? 30 : 8) : w == 1 ? (T ? 6 : 2) : w == 2 ? (T ? 6 : 2) : 1); k++) if (i == j || w < 3 || T || (i >= 9 && j >= 9)) shared.push_back({{1000 + i, k + 1}, {1000 + j, k + (k & 1) + 1}}); }
    for (int i = 0; i < N; i++) if (a[i].weight == 0) for (long k = 0; k < (T ? 8 : 1); k++) fine_.push_back({{i, 9 + 16 * k}, {i, 10 + 16 * k}});
    for (int i = 0; i < NSH; i++) if (SH[i].weight == 0 || T) fine_.push_back({{1000 + i, 3}, {1000 + i, 3}});
    for (int i = 0; i < N; i++) if (!a[i].weight) triple.push_back({{i, 3}, {i, 3}, {(i + 1) % N, 4}}); for (int i = 0; i < NSH; i++) if (SH[i].weight < 2) triple.push_back({{1000 + i, 2}, {1000 + i, 2}, {1000 + i, 3}});
})
static int bnd(const Script& a, const Script& b) { int w = std::max(wt(a), wt(b)); return w == 0 ? (thorough() ? 3 : 2) : w == 1 ? (thorough() ? 2 : 1) : thorough() ? 1 : 0; }
static void pair(const std::pair<Script, Script>& p, int bound, bool fine = false) { Script s[2] = {p.first, p.second}; out->rs[0].tracked = 0; long n = explore(s, 2, bound, fine); sample("%s: %ld schedules, %ld events, %ld accesses, %ld to memory not owned, in the last", desc, n, out->rs[0].events, out->rs[0].accesses, out->rs[0].tracked); }
static void mine() { static pid_t me; if (me != getpid()) { me = getpid(); out = (Out*)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    // only one thread of a run is ever runnable: keep the process on one processor, handing over is faster
    cpu_set_t a; if (!sched_getaffinity(0, sizeof a, &a) && CPU_COUNT(&a) > 0) { int want = (int)(g().me - g().sh->slot) % CPU_COUNT(&a); for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &a) && want-- == 0) { cpu_set_t o; CPU_ZERO(&o); CPU_SET(i, &o); sched_setaffinity(0, sizeof o, &o); break; } } } }
SCENARIO("distinct objects, same operation", [] { return (long)same.size(); }, [](long k) { mine(); pair(same[k], bnd(same[k].first, same[k].second)); })
SCENARIO("distinct objects, every variant", [] { return (long)sweep.size(); }, [](long k) { mine(); pair(sweep[k], 0); })
SCENARIO("distinct objects, different operations", [] { return (long)cross.size(); }, [](long k) { mine(); pair(cross[k], wt(cross[k].first) + wt(cross[k].second) == 0 ? (thorough() ? 2 : 1) : 0); })
SCENARIO("one constant object", [] { return (long)shared.size(); }, [](long k) { mine(); pair(shared[k], bnd(shared[k].first, shared[k].second)); })
SCENARIO("preemption at every function entry", [] { return (long)fine_.size(); }, [](long k) { mine(); pair(fine_[k], 1, true); })
SCENARIO("three threads", [] { return (long)triple.size(); }, [](long k) { mine(); Script s[3] = {triple[k][0], triple[k][1], triple[k][2]}; bool l = wt(s[0]) == 0; explore(s, 3, l ? (thorough() ? 2 : 1) : 0); })
MC_MAIN
