// Exhaustive-enumeration runtime shared by all harnesses.
//
// A harness registers SCENARIOs. A scenario is a finite list of items; the runner
// forks workers, hands every item to exactly one worker, and records what happened
// in shared memory, so that a crash, an abort, an unexpected exception or a hang
// inside the code under test is attributed to the exact case that caused it.
#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
#include <csignal>
#include <ctime>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {
typedef uint8_t  u8;
typedef uint32_t u32;
typedef uint64_t u64;
typedef std::vector<u8> Bytes;

struct Scenario {
    const char* name;
    std::function<long()>     count;
    std::function<void(long)> run;
    long n = 0;
};
inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }
inline std::vector<std::function<void()>>& setups() { static std::vector<std::function<void()>> s; return s; }
struct Reg {
    Reg(const char* n, std::function<long()> c, std::function<void(long)> r) { scenarios().push_back({n, c, r}); }
    Reg(const char* n, long c, std::function<void(long)> r) { scenarios().push_back({n, [c] { return c; }, r}); }
    Reg(std::function<void()> f) { setups().push_back(f); }
};
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define SCENARIO(name, count, ...) static mc::Reg MC_CAT(mc_reg_, __LINE__)(name, count, __VA_ARGS__);
#define SETUP(...) static mc::Reg MC_CAT(mc_setup_, __LINE__)(std::function<void()>(__VA_ARGS__));

enum { EVAL, TRANS, TRACES, NCNT };
struct Viol { int scen; long item; char key[64]; char at[400]; char msg[1200]; };
struct Slot {
    const char* fmt; long a[10];
    volatile long ticks; volatile int scen; volatile long item; volatile int crashed; volatile int patience;
    char ctx[200];
};
enum { MAXW = 32, MAXV = 64, MAXS = 64 };
struct Shared {
    std::atomic<long> next, cnt[NCNT], states;
    std::atomic<int>  nviol, nsample, stop; std::atomic<long> first_bad; // time of the first violation that is not a listed one
    std::atomic<long> scen_done[256], scen_trunc[256];
    Slot slot[MAXW];
    Viol viol[MAXV];
    char sample[MAXS][320]; std::atomic<int> sample_per[256];
};
struct G {
    Shared* sh = nullptr; Slot* me = nullptr; int scen = 0; long item = 0;
    bool thorough = false; u64 seed = 1;
    std::atomic<u64>* set = nullptr; u64 setmask = 0; bool set_full = false;
    std::vector<char*> names;
};
inline G& g() { static G x; return x; }
inline bool thorough() { return g().thorough; }

struct Abort {};
inline void at(const char* fmt) { Slot* s = g().me; s->fmt = fmt; s->ticks = s->ticks + 1; }
template <class... A> inline void at(const char* fmt, A... a)
{
    Slot* s = g().me; long v[] = {(long)a...};
    static_assert(sizeof...(A) <= 10, "too many");
    for (size_t i = 0; i < sizeof...(A); i++) s->a[i] = v[i];
    s->fmt = fmt; s->ticks = s->ticks + 1;
}
inline void ctx(const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt); vsnprintf(g().me->ctx, sizeof g().me->ctx, fmt, ap); va_end(ap);
}
// local counters, flushed per item
struct Loc { long c[NCNT]; };
inline Loc& loc() { static Loc l; return l; }
inline void eval(long n = 1) { loc().c[EVAL] += n; }
inline void trans(long n = 1) { loc().c[TRANS] += n; }
inline void trace(long n = 1) { loc().c[TRACES] += n; }
inline void tick() { g().me->ticks = g().me->ticks + 1; }

inline void describe(const Slot* s, char* out, size_t n)
{
    char b[320] = "";
    if (s->fmt)
        snprintf(b, sizeof b, s->fmt, s->a[0], s->a[1], s->a[2], s->a[3], s->a[4], s->a[5], s->a[6], s->a[7], s->a[8], s->a[9]);
    snprintf(out, n, "%s%s%s", s->ctx, s->ctx[0] && b[0] ? " | " : "", b);
}
inline long monosec() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec; }
inline void record(int scen, long item, const char* key, const char* at, const char* msg)
{
    Shared* sh = g().sh;
    int i = sh->nviol.fetch_add(1);
    if (strncmp(key, "known:", 6)) { long z = 0; sh->first_bad.compare_exchange_strong(z, monosec()); }
    if (i >= MAXV) return;
    Viol& v = sh->viol[i];
    v.scen = scen; v.item = item;
    snprintf(v.key, sizeof v.key, "%s", key);
    snprintf(v.at, sizeof v.at, "%s", at);
    snprintf(v.msg, sizeof v.msg, "%s", msg);
}
inline std::map<std::string, int>& keycount() { static std::map<std::string, int> m; return m; }
// report a violation; the item is abandoned unless the key starts with "known:"
inline void fail(const char* key, const char* fmt, ...)
{
    char m[1200], d[400];
    va_list ap; va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
    describe(g().me, d, sizeof d);
    bool known = !strncmp(key, "known:", 6);
    if (keycount()[key]++ < (known ? 1 : 4)) record(g().scen, g().item, key, d, m);
    if (!known) throw Abort();
}
inline void sample(const char* fmt, ...)
{
    Shared* sh = g().sh;
    if (g().scen >= 256 || sh->sample_per[g().scen].load(std::memory_order_relaxed) >= 2) return;
    if (sh->sample_per[g().scen].fetch_add(1) >= 2) return;
    int i = sh->nsample.fetch_add(1);
    if (i >= MAXS) return;
    char m[300]; va_list ap; va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
    snprintf(sh->sample[i], sizeof sh->sample[i], "%s[%ld]: %s", scenarios()[g().scen].name, g().item, m);
}
inline u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
inline u64 hash(const void* p, size_t n, u64 h = 0x1234567)
{
    const u8* b = (const u8*)p;
    while (n >= 8) { u64 w; memcpy(&w, b, 8); h = mix(h ^ w) + 1; b += 8; n -= 8; }
    u64 w = 0; memcpy(&w, b, n); return mix(h ^ w ^ ((u64)n << 56));
}
template <class... A> inline u64 hashv(A... a) { u64 v[] = {(u64)a...}; return hash(v, sizeof v); }
// insert into the shared set of distinct states / cases; true if new
inline bool state(u64 h)
{
    G& G_ = g(); if (!h) h = 1; if (!G_.set) return false;
    u64 i = mix(h) & G_.setmask;
    for (int probe = 0; probe < 64; probe++, i = (i + 1) & G_.setmask) {
        u64 cur = G_.set[i].load(std::memory_order_relaxed);
        if (cur == h) return false;
        if (cur == 0) {
            if (G_.set[i].compare_exchange_strong(cur, h)) { G_.sh->states.fetch_add(1, std::memory_order_relaxed); return true; }
            if (cur == h) return false;
        }
    }
    return false; // table full around here: undercount, never overcount
}

inline std::string hex(const void* p, size_t n)
{
    static const char* d = "0123456789abcdef"; std::string s; const u8* b = (const u8*)p;
    if (n > 200) { return hex(b, 96) + ".." + hex(b + n - 96, 96); }
    for (size_t i = 0; i < n; i++) { s += d[b[i] >> 4]; s += d[b[i] & 15]; }
    return s;
}
inline std::string hex(const Bytes& b) { return hex(b.data(), b.size()); }
inline Bytes unhex(const char* s)
{
    Bytes r; auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    for (; s[0] && s[1]; ) { if (*s == ' ') { s++; continue; } r.push_back((u8)(v(s[0]) * 16 + v(s[1]))); s += 2; }
    return r;
}
// fixed pseudo-random filler (same on every run)
inline void fill(void* p, size_t n, u64 seed)
{
    u8* b = (u8*)p; u64 s = mix(seed + 77);
    for (size_t i = 0; i < n; i++) { if (i % 8 == 0) s = mix(s + i); b[i] = (u8)(s >> (8 * (i % 8))); }
}
inline Bytes filled(size_t n, u64 seed) { Bytes b(n); fill(b.data(), n, seed); return b; }
inline void expect_eq(const char* key, const void* got, const void* want, size_t n, const char* what)
{
    if (n && memcmp(got, want, n)) {
        size_t i = 0; while (((const u8*)got)[i] == ((const u8*)want)[i]) i++;
        fail(key, "%s: first difference at byte %zu of %zu; got %s want %s", what, i, n, hex(got, n).c_str(), hex(want, n).c_str());
    }
}

// Buffer with inaccessible pages right before and right after it.
struct Guard {
    u8* base; size_t cap;
    explicit Guard(size_t capacity)
    {
        cap = (capacity + 4095) / 4096 * 4096; if (!cap) cap = 4096;
        u8* m = (u8*)mmap(nullptr, cap + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED || mprotect(m + 4096, cap, PROT_READ | PROT_WRITE)) { perror("mmap"); _exit(90); }
        base = m + 4096;
    }
    Guard(const Guard&) = delete;
    ~Guard() { munmap(base - 4096, cap + 8192); }
    u8* tail(size_t n) { return base + cap - n; }          // [n bytes][fault]
    u8* head() { return base; }                            // [fault][n bytes]
    void ro(bool r) { mprotect(base, cap, r ? PROT_READ : PROT_READ | PROT_WRITE); }
};
// tail-guarded buffer with 64-byte canary in front of it; check() verifies the canary
struct Tight {
    Guard g; u8* p = nullptr; size_t n = 0;
    explicit Tight(size_t capacity) : g(capacity + 64) {}
    u8* set(size_t len, u8 fillv = 0xEE) { n = len; p = g.tail(len); memset(p - 64, 0xC7, 64); memset(p, fillv, len); return p; }
    u8* set(const Bytes& b) { set(b.size()); if (b.size()) memcpy(p, b.data(), b.size()); return p; }
    bool ok() const { for (int i = 1; i <= 64; i++) if (p[-i] != 0xC7) return false; return true; }
};

// P pattern bytes mapped `times` times in a row: gigabytes of address space over one small buffer
struct Repeat {
    u8* p; size_t n;
    Repeat(size_t P, size_t times, u64 seed) : n(P * times)
    {
        int fd = memfd_create("repeat", 0); if (fd < 0 || ftruncate(fd, (off_t)P)) _exit(90);
        p = (u8*)mmap(nullptr, n + P, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == (u8*)MAP_FAILED) _exit(90);
        for (size_t i = 0; i < times; i++) if (mmap(p + i * P, P, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) _exit(90);
        close(fd); Bytes b = filled(P, seed); memcpy(p, b.data(), P);
    }
    ~Repeat() { munmap(p, n); }
    Repeat(const Repeat&) = delete;
};

// --- runner ---------------------------------------------------------------
inline std::string jesc(const char* s)
{
    std::string r; for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
    return r;
}
static long mc_prof_last = -1; static int mc_prof_same = 0, mc_prof_limit = 24; // times 5 s of CPU
inline void on_prof(int)
{
    Slot* s = g().me;
    if (s->ticks == mc_prof_last) { if (++mc_prof_same >= mc_prof_limit) { s->crashed = -1; _exit(91); } }
    else { mc_prof_last = s->ticks; mc_prof_same = 0; }
}
inline void on_term() { _exit(92); }

// Runs f in a child and returns its status. CPU seconds decide that it does not end (SIGPROF); a child ended by the wall
// clock or from outside is started again: a stalled machine is no verdict.
template <class F> int in_process(int secs, F f)
{
    for (int t = 0;; t++) {
        fflush(stderr); pid_t p = fork(); if (p < 0) { perror("fork"); _exit(90); }
        if (!p) { signal(SIGPROF, SIG_DFL); itimerval z = {{0, 0}, {secs, 0}}; setitimer(ITIMER_PROF, &z, nullptr); alarm(3 * secs); f(); _exit(0); }
        int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (!WIFSIGNALED(st) || (WTERMSIG(st) != SIGALRM && WTERMSIG(st) != SIGKILL)) return st;
        if (t == 2) { if (WTERMSIG(st) == SIGKILL) _exit(90); return st; }
    }
}

// scenarios of single calls over gigabytes may take minutes on a loaded machine
inline bool slow_name(const char* n) { for (const char* p : {"huge", "long", "large", "one", "2^32", "many"}) if (!strncmp(n, p, strlen(p))) return true; return false; }
inline void run_one(int si, long it)
{
    G& G_ = g(); Slot* s = G_.me;
    s->scen = si; s->item = it; s->fmt = nullptr; s->ctx[0] = 0; s->ticks = s->ticks + 1; G_.scen = si; G_.item = it;
    loc() = Loc();
    mc_prof_limit = slow_name(scenarios()[si].name) ? 96 : 24; s->patience = slow_name(scenarios()[si].name) ? 800 : 400;
    try { scenarios()[si].run(it); }
    catch (Abort&) {}
    catch (std::exception& e) { char d[400]; describe(s, d, sizeof d); record(si, it, "exception", d, (std::string("unexpected exception: ") + e.what()).c_str()); }
    catch (...) { char d[400]; describe(s, d, sizeof d); record(si, it, "exception", d, "unexpected exception"); }
    for (int i = 0; i < NCNT; i++) G_.sh->cnt[i].fetch_add(loc().c[i], std::memory_order_relaxed);
    G_.sh->scen_done[si].fetch_add(1);
}

inline int main_(int argc, char** argv)
{
    G& G_ = g();
    const char* out = nullptr; const char* only = nullptr; int workers = 8; const char* filter = nullptr; bool dbg = false;
    long setbits = 22, mem_mb = 6000;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--out") out = argv[++i];
        else if (a == "--only") only = argv[++i];
        else if (a == "--workers") workers = atoi(argv[++i]);
        else if (a == "--thorough") G_.thorough = true, setbits = 25;
        else if (a == "--filter") filter = argv[++i];
        else if (a == "--mem") mem_mb = atol(argv[++i]);
        else if (a == "--debug") dbg = true;
    }
    if (workers > MAXW) workers = MAXW;
    G_.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    G_.set = (std::atomic<u64>*)mmap(nullptr, (size_t)8 << setbits, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    G_.setmask = ((u64)1 << setbits) - 1;
    Shared* sh = G_.sh;
    G_.me = &sh->slot[MAXW - 1];
    for (auto& f : setups()) f();
    std::vector<std::pair<int, long>> flat; // (scenario, item)
    auto& sc = scenarios();
    for (size_t i = 0; i < sc.size(); i++) {
        if (filter && !strstr(sc[i].name, filter)) continue;
        sc[i].n = sc[i].count();
        for (long k = 0; k < sc[i].n; k++) flat.push_back({(int)i, k});
    }
    // the long linear histories first: one of them late would keep a single worker busy at the end
    std::stable_partition(flat.begin(), flat.end(), [&](const std::pair<int, long>& f) { return !strncmp(sc[f.first].name, "many", 4); });
    if (only) {
        std::string o = only; size_t c = o.rfind(':'); long it = atol(o.c_str() + c + 1); std::string n = o.substr(0, c);
        flat.clear();
        for (size_t i = 0; i < sc.size(); i++) if (n == sc[i].name) flat.push_back({(int)i, it});
        if (flat.empty()) { fprintf(stderr, "no scenario %s\n", only); return 3; }
        workers = 1;
    }
    if (dbg) { for (auto& f : flat) run_one(f.first, f.second); for (int i = 0; i < sh->nviol && i < MAXV; i++) printf("VIOL %s %s: %s\n", sh->viol[i].key, sh->viol[i].at, sh->viol[i].msg); return sh->nviol > 0; }
    fflush(stdout); fflush(stderr);
    std::vector<pid_t> pid(workers, 0);
    long t_start = monosec();
    const long grace = getenv("MC_GRACE") ? atol(getenv("MC_GRACE")) : 15; // after the first violation the rest is cut short
    bool cut = false; const char* seen = getenv("MC_SHOW_STDERR");
    auto spawn = [&](int w) {
        pid_t p = fork();
        if (p < 0) { perror("fork"); exit(3); }
        if (p == 0) {
            G_.me = &sh->slot[w];
            if (!seen) { /* keep stderr: sanitizer reports are useful */ }
            std::set_terminate(on_term);
#ifndef MC_NO_RLIMIT
            rlimit rl = {(rlim_t)mem_mb << 20, (rlim_t)mem_mb << 20}; setrlimit(RLIMIT_AS, &rl);
#endif
            rlimit nc = {0, 0}; setrlimit(RLIMIT_CORE, &nc);
            signal(SIGPROF, on_prof);
            itimerval tv = {{5, 0}, {5, 0}}; setitimer(ITIMER_PROF, &tv, nullptr);
            for (;;) {
                if (sh->nviol.load() >= 24 || (sh->first_bad.load() && monosec() - sh->first_bad.load() >= grace)) break;
                long i = sh->next.fetch_add(1);
                if (i >= (long)flat.size()) break;
                run_one(flat[i].first, flat[i].second);
            }
            _exit(0);
        }
        pid[w] = p;
    };
    for (int w = 0; w < workers; w++) { sh->slot[w].scen = -1; sh->slot[w].patience = 400; spawn(w); }
    int alive = workers, crashes = 0, infra = 0;
    std::vector<long> lastt(workers, -1), lastwall(workers, monosec()); long seenwall = monosec();
    while (alive > 0) {
        long gap = monosec() - seenwall; seenwall += gap; if (gap > 3) for (auto& l : lastwall) l += gap; // the whole machine stood still
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p <= 0) {
            usleep(2000); if (sh->first_bad.load() && !cut && monosec() - sh->first_bad.load() >= grace + 10) { cut = true; for (int w = 0; w < workers; w++) if (pid[w]) kill(pid[w], SIGKILL); }
            for (int w = 0; w < workers; w++) if (pid[w]) { // blocked (no CPU use) for very long: deadlock
                if (sh->slot[w].ticks != lastt[w]) { lastt[w] = sh->slot[w].ticks; lastwall[w] = monosec(); }
                else if (monosec() - lastwall[w] > sh->slot[w].patience) { sh->slot[w].crashed = -1; kill(pid[w], SIGKILL); lastwall[w] = monosec(); }
            }
            continue;
        }
        int w = 0; while (w < workers && pid[w] != p) w++;
        if (w == workers) continue;
        pid[w] = 0; alive--;
        if (cut || (WIFEXITED(st) && WEXITSTATUS(st) == 0)) continue;
        // a worker died inside a case
        Slot* s = &sh->slot[w]; char d[400], m[200]; const char* key = "crash";
        describe(s, d, sizeof d);
        if (s->crashed == -1) { key = "hang"; snprintf(m, sizeof m, "no progress for minutes of CPU time in one case"); }
        else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { infra = 1; key = "killed"; snprintf(m, sizeof m, "worker killed from outside"); }
        else if (WIFSIGNALED(st)) snprintf(m, sizeof m, "killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
        else if (WEXITSTATUS(st) == 92) snprintf(m, sizeof m, "std::terminate called");
        else if (WEXITSTATUS(st) == 90) { infra = 1; snprintf(m, sizeof m, "harness could not allocate"); }
        else snprintf(m, sizeof m, "worker exited with status %d (sanitizer report or exit call)", WEXITSTATUS(st));
        s->crashed = 0;
        if (s->scen < 0) { infra = 1; }
        else if (!strcmp(key, "killed")) { fprintf(stderr, "worker killed in %s:%ld %s\n", sc[s->scen].name, (long)s->item, d); }
        else record(s->scen, s->item, key, d, m);
        if (++crashes < 16 && !infra && !only) { spawn(w); alive++; }
    }
    // completeness: every item must have been run to its end (or be accounted for as a violation)
    long done = 0; for (size_t i = 0; i < sc.size() && i < 256; i++) done += sh->scen_done[i];
    FILE* f = out ? fopen(out, "w") : stdout;
    if (!f) { perror(out); return 3; }
    fprintf(f, "{\"items\": %zu, \"done\": %ld, \"infra\": %d, \"evaluations\": %ld, \"transitions\": %ld, \"traces\": %ld, \"states\": %ld, \"wall\": %ld,\n \"scenarios\": {", flat.size(), done, infra,
            sh->cnt[EVAL].load(), sh->cnt[TRANS].load(), sh->cnt[TRACES].load(), sh->states.load(), monosec() - t_start);
    bool first = true;
    for (size_t i = 0; i < sc.size() && i < 256; i++) if (sc[i].n || only) { fprintf(f, "%s\"%s\": [%ld, %ld]", first ? "" : ", ", sc[i].name, sc[i].n, sh->scen_done[i].load()); first = false; }
    fprintf(f, "},\n \"samples\": [");
    for (int i = 0; i < sh->nsample && i < MAXS; i++) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(sh->sample[i]).c_str());
    fprintf(f, "],\n \"violations\": [");
    for (int i = 0; i < sh->nviol && i < MAXV; i++) {
        Viol& v = sh->viol[i];
        fprintf(f, "%s{\"key\": \"%s\", \"scenario\": \"%s\", \"item\": %ld, \"at\": \"%s\", \"msg\": \"%s\"}", i ? ",\n  " : "", jesc(v.key).c_str(), sc[v.scen].name, v.item, jesc(v.at).c_str(), jesc(v.msg).c_str());
    }
    fprintf(f, "]}\n");
    if (out) fclose(f);
    return infra ? 3 : 0;
}
} // namespace mc
#define MC_MAIN int main(int argc, char** argv) { return mc::main_(argc, argv); }
