// Controlled scheduler for real threads (c28rt.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
namespace rt {
enum { NT = 3, MAXP = 8 };
struct Pre { long ev; int to; };
struct Result { // in memory shared with the parent
    long events, accesses, tracked, writes, syncs, switches; int hotgrew, dirty, over;
    uint64_t dig[NT]; int excs;
    int bad; char msg[900]; // 1 race, 2 deadlock
};
struct Job { void (*fn)(void*); void* arg; };
// run n threads under: first thread, preemptions (event index, target); fine: function entries are events too
void run(int n, Job* jobs, int first, const Pre* p, int np, bool fine, Result* res);
void init();                       // once, before forking
void* own(size_t n);               // memory of the calling scheduled thread
void event(void);                  // an interface boundary
void quiet(bool q);                // the harness itself
bool active();
int self();
}
