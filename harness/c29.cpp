// C29: every script of ops.h on exactly-sized buffers between inaccessible pages.
#include <fcntl.h>
#include "opsctx.h"
using namespace mc;
struct It { int op; long from, to; };
static std::vector<It> items;
SETUP([] {
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
    auto& a = ops::all(); for (int i = 0; i < (int)a.size(); i++) { bool li = a[i].weight == ops::LIGHT; long n = (thorough() ? a[i].thorough : a[i].quick) * (li ? 3 : 2), st = li ? 50 : 1; const char* cut = getenv("MC_OPS_DIV"); if (cut) n = n / atol(cut) + 1; for (long v = 0; v < n; v += st) items.push_back({i, v, std::min(n, v + st)}); }
})
static u64 run(int op, long v, bool head, std::vector<size_t>& ex, bool learn)
{
    if (learn) ex.clear(); opsctx::Ctx c(head, &ex, learn); auto& o = ops::all()[op]; ctx("%s, variant %ld, %s, %s", o.name, v, head ? "buffers start after an inaccessible page" : "buffers end at an inaccessible page", learn ? "roomy outputs" : "outputs of the size written");
    try { o.fn(c, v); } catch (Abort&) { if (c.bad) fail("length", "%s", c.bad); throw; } eval(); return c.dig;
}
SCENARIO("bounds", [] { return (long)items.size(); }, [](long k) {
    for (long v = items[k].from; v < items[k].to; v++) { int op = items[k].op; std::vector<size_t> ex; u64 a = run(op, v, false, ex, true), b = run(op, v, false, ex, false); std::vector<size_t> e2; u64 c = run(op, v, true, e2, true), d = run(op, v, true, e2, false);
        state(hashv(op, v, a)); if (a != b || a != c || a != d) fail("depends on placement", "results differ with the placement or room of the buffers: %lx %lx %lx %lx", a, b, c, d); if (v < 2) sample("%s variant %ld: %ld output buffers, transcript digest %016lx", ops::all()[op].name, v, (long)ex.size(), a); }
})
MC_MAIN
