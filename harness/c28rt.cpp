// Controlled scheduler: hooks that clang -fsanitize=thread puts into the library and the harness,
// serialised real threads with a baton, vector clocks over memory a thread does not own.
// This file is compiled with the same flags, hence the attribute.
#pragma clang attribute push(__attribute__((disable_sanitizer_instrumentation)), apply_to = function)
#include "c28rt.h"
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
extern "C" { extern char __executable_start, __data_start, _end; void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void __libc_free(void*); void* __libc_memalign(size_t, size_t); }
typedef uintptr_t up; typedef uint64_t u64;
namespace rt {
enum { STACK = 4 << 20, ARENA = 24 << 20, SH = 1 << 17, SY = 4096, HOT = 1 << 14 };
struct Th { char *stk, *ar; size_t pos; int id; int go; int state; /*0 ready 1 blocked 2 done*/ const void* wait; u64 vc[NT]; pthread_t h; Job job; long atoms; };
static Th th[NT]; static __thread Th* cur = nullptr; static __thread int off = 0;
struct Cell { up a; u64 gen; u64 w; int wt; u64 r[NT]; void *wpc, *rpc[NT]; };
static Cell* cells; struct Sync { up a; u64 gen; u64 vc[NT]; int owner; int depth; }; static Sync* syncs; static u64 gen = 0;
static up* hot; // shared between processes of one worker
static struct { int n, running; const Pre* p; int np, ip; long ev; bool fine; Result* r; } R; static int maingo;
static void fwait(int* f) { while (!__atomic_load_n(f, __ATOMIC_ACQUIRE)) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(f, 0, __ATOMIC_RELAXED); }
static void fwake(int* f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static void name(void* pc, char* o, size_t n) { Dl_info i; if (pc && dladdr(pc, &i) && i.dli_sname) snprintf(o, n, "%s+%ld", i.dli_sname, (long)((char*)pc - (char*)i.dli_saddr)); else snprintf(o, n, "%p", pc); }
static void bad(int kind, const char* m) { if (!R.r->bad) { R.r->bad = kind; snprintf(R.r->msg, sizeof R.r->msg, "%s", m); } }
static void switch_to(Th* t, Th* o) { R.r->switches++; R.running = o->id; fwake(&o->go); if (t) { fwait(&t->go); } }
static Th* other_ready(Th* t, int want = -1) { if (want >= 0 && want < R.n && &th[want] != t && th[want].state == 0) return &th[want]; for (int k = 1; k <= R.n; k++) { Th* o = &th[(t->id + k) % R.n]; if (o != t && o->state == 0) return o; } return nullptr; }
static void ev(Th* t) { long i = R.ev++; R.r->events = R.ev; if (R.ip < R.np && i == R.p[R.ip].ev) { int want = R.p[R.ip].to; R.ip++; Th* o = other_ready(t, want); if (o) switch_to(t, o); } }
static void block(Th* t, const void* a) { t->state = 1; t->wait = a; Th* o = other_ready(t); if (!o) { bad(2, "all threads wait for each other"); _exit(77); } switch_to(t, o); }
static void wake(const void* a) { for (int i = 0; i < R.n; i++) if (th[i].state == 1 && th[i].wait == a) th[i].state = 0; }
static Sync* sync_of(const void* a) { up h = ((up)a * 0x9E3779B97F4A7C15ull) >> 40; for (int k = 0; k < SY; k++) { Sync* s = &syncs[(h + k) % SY]; if (s->gen != gen) { memset(s, 0, sizeof *s); s->gen = gen; s->a = (up)a; s->owner = -1; return s; } if (s->a == (up)a) return s; } fprintf(stderr, "too many synchronisation objects\n"); _exit(90); }
static void acq(Th* t, const void* a) { Sync* s = sync_of(a); R.r->syncs++; for (int i = 0; i < NT; i++) if (s->vc[i] > t->vc[i]) t->vc[i] = s->vc[i]; }
static void rel(Th* t, const void* a) { Sync* s = sync_of(a); R.r->syncs++; for (int i = 0; i < NT; i++) if (t->vc[i] > s->vc[i]) s->vc[i] = t->vc[i]; t->vc[t->id]++; }
static bool is_hot(up a) { for (up h = (a * 0x9E3779B97F4A7C15ull) >> 50;; h++) { up v = hot[h % HOT]; if (v == a) return true; if (!v) return false; } }
static void make_hot(up a) { up h = (a * 0x9E3779B97F4A7C15ull) >> 50; for (int k = 0; k < HOT / 2; k++, h++) { if (hot[h % HOT] == a) return; if (!hot[h % HOT]) { hot[h % HOT] = a; R.r->hotgrew = 1; return; } } R.r->over = 1; }
static void race(Th* t, up a, bool wr, void* pc, int o, bool owr, void* opc)
{
    char x[160], y[160], z[160], m[800]; name(pc, x, sizeof x); name(opc, y, sizeof y); name((void*)a, z, sizeof z); const char* what = (up)&__data_start <= a && a < (up)&_end ? "static memory" : "memory of another owner";
    snprintf(m, sizeof m, "thread %d %s %s %s in %s, unordered with the %s of thread %d in %s", t->id, wr ? "writes" : "reads", what, z, x, owr ? "write" : "read", o, y); bad(1, m); _exit(77); // the schedule is decided
}
static void touch(Th* t, up a, bool wr, void* pc)
{
    up h = (a * 0x9E3779B97F4A7C15ull) >> 44; Cell* c = nullptr;
    for (int k = 0; k < 4096; k++) { Cell* q = &cells[(h + k) % SH]; if (q->gen != gen) { memset(q, 0, sizeof *q); q->gen = gen; q->a = a; q->wt = -1; c = q; break; } if (q->a == a) { c = q; break; } }
    if (!c) { R.r->over = 1; return; }
    if (c->wt >= 0 && c->wt != t->id && c->w > t->vc[c->wt]) race(t, a, wr, pc, c->wt, true, c->wpc);
    if (wr) { for (int i = 0; i < R.n; i++) if (i != t->id && c->r[i] > t->vc[i]) race(t, a, wr, pc, i, false, c->rpc[i]); c->w = t->vc[t->id]; c->wt = t->id; c->wpc = pc; }
    else { c->r[t->id] = t->vc[t->id]; c->rpc[t->id] = pc; }
}
static inline void access(const void* p, size_t n, bool wr, void* pc)
{
    Th* t = cur; if (!t || off || !n) return; R.r->accesses++; up a = (up)p;
    if (a - (up)t->stk < STACK || a - (up)t->ar < ARENA) return;
    if (a >= (up)&__executable_start && a < (up)&__data_start) return; // constants
    off = 1; R.r->tracked++; bool hotacc = false; if (wr) { R.r->dirty = 1; R.r->writes++; }
    for (size_t i = 0; i < n; i++) { if (wr) make_hot(a + i); if (is_hot(a + i)) hotacc = true; }
    if (hotacc) ev(t); for (size_t i = 0; i < n; i++) touch(t, a + i, wr, pc); off = 0;
}
void init()
{
    for (int i = 0; i < NT; i++) { th[i].stk = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); th[i].ar = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); th[i].id = i; if (th[i].stk == MAP_FAILED || th[i].ar == MAP_FAILED) _exit(90); }
    cells = (Cell*)mmap(nullptr, sizeof(Cell) * SH, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); syncs = (Sync*)mmap(nullptr, sizeof(Sync) * SY, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); hot = (up*)mmap(nullptr, sizeof(up) * HOT, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
static void* body(void* x)
{
    Th* t = (Th*)x; fwait(&t->go); cur = t; t->job.fn(t->job.arg); cur = nullptr; t->state = 2; Th* o = other_ready(t);
    if (o) switch_to(nullptr, o); else { for (int i = 0; i < R.n; i++) if (th[i].state == 1) { bad(2, "a thread waits for ever"); _exit(77); } fwake(&maingo); }
    return nullptr;
}
void run(int n, Job* jobs, int first, const Pre* p, int np, bool fine, Result* res)
{
    gen++; memset(res, 0, sizeof *res); R.n = n; R.p = p; R.np = np; R.ip = 0; R.ev = 0; R.fine = fine; R.r = res;
    for (int i = 0; i < n; i++) { Th& t = th[i]; memset(t.ar, 0, t.pos); t.pos = 0; t.go = 0; t.state = 0; t.atoms = 0; memset(t.vc, 0, sizeof t.vc); t.vc[i] = 1; t.job = jobs[i]; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, t.stk, STACK); if (pthread_create(&t.h, &a, body, &t)) { perror("pthread_create"); _exit(90); } pthread_attr_destroy(&a); }
    fwake(&th[first].go); fwait(&maingo); for (int i = 0; i < n; i++) pthread_join(th[i].h, nullptr);
}
void* own(size_t n) { Th* t = cur; if (!t) return malloc(n); n = (n + 31) / 16 * 16; if (t->pos + n > ARENA) { fprintf(stderr, "thread arena full\n"); _exit(90); } void* p = t->ar + t->pos; t->pos += n; return p; }
void event() { if (cur && !off) ev(cur); }
void quiet(bool q) { off = q; }
bool active() { return cur; }
int self() { return cur ? cur->id : -1; }
static bool in_arena(const void* p) { for (int i = 0; i < NT; i++) if (th[i].ar && (up)p - (up)th[i].ar < ARENA) return true; return false; }
static void lock(Th* t, void* m, bool rec) { Sync* s; for (;;) { s = sync_of(m); if (s->owner < 0 || (rec && s->owner == t->id)) break; block(t, m); } s->owner = t->id; s->depth++; acq(t, m); }
static void unlock(Th* t, void* m) { Sync* s = sync_of(m); rel(t, m); if (--s->depth <= 0) { s->depth = 0; s->owner = -1; wake(m); } }
static bool image(void* pc) { return (char*)pc >= &__executable_start && (char*)pc < &_end; }
static void atom(Th* t, void* pc) { ev(t); if (++t->atoms % 200 == 0) { Th* o = other_ready(t); if (o) switch_to(t, o); } } // a spinning thread gives way
}
using namespace rt;
extern "C" {
void* malloc(size_t n) { if (cur) { size_t* p = (size_t*)own(n + 16); p[0] = n; return p + 2; } return __libc_malloc(n); }
void free(void* p) { if (p && !in_arena(p)) __libc_free(p); }
void* calloc(size_t a, size_t b) { if (cur) { void* p = malloc(a * b); memset(p, 0, a * b); return p; } return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { if (p && in_arena(p)) { size_t o = ((size_t*)p)[-2]; void* q = malloc(n); memcpy(q, p, o < n ? o : n); return q; } if (cur && !p) return malloc(n); return __libc_realloc(p, n); }
void* memalign(size_t al, size_t n) { if (cur) { char* p = (char*)own(n + al + 16); p = (char*)(((up)p + 16 + al - 1) / al * al); ((size_t*)p)[-2] = n; return p; } return __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** o, size_t al, size_t n) { *o = memalign(al, n); return *o ? 0 : ENOMEM; }
#define PC __builtin_return_address(0)
#define RW(n) void __tsan_read##n(void* a) { access(a, n, false, PC); } void __tsan_write##n(void* a) { access(a, n, true, PC); } void __tsan_unaligned_read##n(void* a) { access(a, n, false, PC); } void __tsan_unaligned_write##n(void* a) { access(a, n, true, PC); } void __tsan_read_write##n(void* a) { access(a, n, true, PC); } void __tsan_unaligned_read_write##n(void* a) { access(a, n, true, PC); } void __tsan_volatile_read##n(void* a) { access(a, n, false, PC); } void __tsan_volatile_write##n(void* a) { access(a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access(a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { access(a, n, true, PC); }
void __tsan_vptr_read(void** a) { access(a, 8, false, PC); }
void __tsan_vptr_update(void** a, void* v) { access(a, 8, true, PC); }
void __tsan_func_entry(void*) { Th* t = cur; if (t && !off && R.fine) ev(t); }
void __tsan_func_exit() {}
void __tsan_init() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int v, size_t n) { access(d, n, true, PC); return memset(d, v, n); }
// atomics: order 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
#define A_(o) ((o) == 1 || (o) == 2 || (o) == 4 || (o) == 5)
#define R_(o) ((o) == 3 || (o) == 4 || (o) == 5)
#define PRE Th* t = off ? nullptr : cur; if (t) atom(t, PC);
#define RMW(T, N, op, bi) T __tsan_atomic##N##_##op(volatile T* a, T v, int o) { PRE T r = bi(a, v, __ATOMIC_SEQ_CST); if (t) { R.r->dirty = 1; if (A_(o)) acq(t, (void*)a); if (R_(o)) rel(t, (void*)a); } return r; }
#define AT(T, N) T __tsan_atomic##N##_load(const volatile T* a, int o) { PRE T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); if (t && A_(o)) acq(t, (void*)a); return v; } \
    void __tsan_atomic##N##_store(volatile T* a, T v, int o) { PRE if (t) { R.r->dirty = 1; if (R_(o)) rel(t, (void*)a); } __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    RMW(T, N, exchange, __atomic_exchange_n) RMW(T, N, fetch_add, __atomic_fetch_add) RMW(T, N, fetch_sub, __atomic_fetch_sub) RMW(T, N, fetch_and, __atomic_fetch_and) RMW(T, N, fetch_or, __atomic_fetch_or) RMW(T, N, fetch_xor, __atomic_fetch_xor) RMW(T, N, fetch_nand, __atomic_fetch_nand) \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int o, int f) { PRE T e = *c; int k = __atomic_compare_exchange_n(a, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); *c = e; if (t) { R.r->dirty = 1; if (A_(k ? o : f)) acq(t, (void*)a); if (k && R_(o)) rel(t, (void*)a); } return k; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int o, int f) { return __tsan_atomic##N##_compare_exchange_strong(a, c, v, o, f); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int o, int f) { __tsan_atomic##N##_compare_exchange_strong(a, &c, v, o, f); return c; }
AT(uint8_t, 8) AT(uint16_t, 16) AT(uint32_t, 32) AT(uint64_t, 64)
static u64 fence_obj;
void __tsan_atomic_thread_fence(int o) { PRE if (t) { acq(t, &fence_obj); rel(t, &fence_obj); } }
void __tsan_atomic_signal_fence(int) {}
// guarded initialisation of local statics: byte 0 done, byte 1 in progress
int __cxa_guard_acquire(u64* g) { char* b = (char*)g; Th* t = cur; if (!t) return !b[0]; ev(t); for (;;) { if (b[0]) { acq(t, g); return 0; } if (!b[1]) break; block(t, g); } b[1] = 1; R.r->dirty = 1; acq(t, g); return 1; }
void __cxa_guard_release(u64* g) { char* b = (char*)g; Th* t = cur; b[0] = 1; b[1] = 0; if (t) { rel(t, g); wake(g); ev(t); } }
void __cxa_guard_abort(u64* g) { char* b = (char*)g; Th* t = cur; b[1] = 0; if (t) { wake(g); ev(t); } }
// locks used by the code under test; code outside the program image gets them without a scheduling point
int pthread_mutex_lock(pthread_mutex_t* m) { Th* t = cur; if (!t) return 0; if (image(PC)) { R.r->dirty = 1; ev(t); } lock(t, m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { Th* t = cur; if (!t) return 0; ev(t); Sync* s = sync_of(m); if (s->owner >= 0 && !(s->owner == t->id && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE)) return EBUSY; lock(t, m, true); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { Th* t = cur; if (!t) return 0; unlock(t, m); if (image(PC)) ev(t); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { Th* t = cur; if (!t) return 0; ev(t); lock(t, m, true); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return pthread_rwlock_rdlock(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { Th* t = cur; if (!t) return 0; unlock(t, m); ev(t); return 0; }
int pthread_once(pthread_once_t* o, void (*f)(void))
{
    Th* t = cur; volatile int* s = (volatile int*)o; if (!t) { if (*s != 2) { *s = 1; f(); *s = 2; } return 0; }
    ev(t); while (*s == 1) block(t, o); if (*s == 2) { acq(t, o); return 0; } *s = 1; R.r->dirty = 1; acq(t, o); try { f(); } catch (...) { *s = 0; wake(o); throw; } *s = 2; rel(t, o); wake(o); ev(t); return 0;
}
}
#pragma clang attribute pop
