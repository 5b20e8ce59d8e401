// Buffers for ops.h scripts: pooled slots between inaccessible pages, inputs mapped read-only.
#pragma once
#include "mc.h"
#include "ops.h"
#include <new>
namespace opsctx {
using mc::u8; using mc::u64;
struct Pool { // every slot is two views of the same memory: one writable, one between inaccessible pages
    enum { N = 1200, SZ = 3 * 4096 };
    u8 *rw, *ro, *out; // view i at base + i*(SZ+4096)+4096
    static u8* area(int fd, int prot)
    {
        size_t st = SZ + 4096; u8* a = (u8*)mmap(nullptr, N * st + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (a == MAP_FAILED) _exit(90);
        for (int i = 0; i < N; i++) { void* p = fd >= 0 ? mmap(a + i * st + 4096, SZ, prot, MAP_SHARED | MAP_FIXED, fd, (long)i * SZ) : mmap(a + i * st + 4096, SZ, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0); if (p == MAP_FAILED) _exit(90); }
        return a;
    }
    Pool() { int fd = memfd_create("slots", 0); if (fd < 0 || ftruncate(fd, (long)N * SZ)) _exit(90); rw = (u8*)mmap(nullptr, (size_t)N * SZ, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (rw == MAP_FAILED) _exit(90); ro = area(fd, PROT_READ); out = area(-1, PROT_READ | PROT_WRITE); close(fd); }
    static u8* at(u8* base, int i) { return base + (size_t)i * (SZ + 4096) + 4096; }
};
inline Pool& pool() { static Pool* p = new Pool; return *p; } // one per process: call only after the fork
struct Ctx : ops::Ctx {
    bool head; std::vector<size_t>* exact; bool learn; // placement; sizes written by a first pass
    int ni = 0, no = 0; std::vector<u8*> outs; std::vector<size_t> outn; u64 dig = 1; u64 nout = 0; bool keep = false; mc::Bytes log; const char* bad = nullptr;
    Ctx(bool h, std::vector<size_t>* e, bool l) : head(h), exact(e), learn(l) {}
    const u8* in(const u8* p, size_t n) override
    {
        if (ni >= Pool::N || n > Pool::SZ) { fprintf(stderr, "slots exhausted\n"); _exit(90); }
        Pool& P = pool(); size_t off = head ? 0 : Pool::SZ - n; if (n) memcpy(P.rw + (size_t)ni * Pool::SZ + off, p, n); return Pool::at(P.ro, ni++) + off;
    }
    u8* out(size_t max) override
    {
        if (no >= Pool::N || max > Pool::SZ) { fprintf(stderr, "slots exhausted\n"); _exit(90); }
        if (learn) exact->push_back(max); else if (no < (int)exact->size()) max = (*exact)[no];
        u8* p = Pool::at(pool().out, no++) + (head ? 0 : Pool::SZ - max); memset(p, 0xA5, max); outs.push_back(p); outn.push_back(max); return p;
    }
    void wrote(u8* p, size_t n) override
    {
        for (int i = (int)outs.size() - 1; i >= 0; i--) if (outs[i] == p) { if (n > outn[i]) { bad = "more octets reported written than the output can hold"; throw mc::Abort(); } if (learn) (*exact)[i] = std::max(wr_[i], n), wr_[i] = (*exact)[i]; break; }
        emit(p, n);
    }
    struct W { std::vector<size_t> v; size_t& operator[](size_t i) { if (i >= v.size()) v.resize(i + 1); return v[i]; } } wr_;
    void emit(const void* p, size_t n) override { dig = mc::hash(p, n, dig ^ n * 0x9e37); nout += n; if (keep) log.insert(log.end(), (const u8*)p, (const u8*)p + n); }
    void step() override { mc::tick(); }
};
}
