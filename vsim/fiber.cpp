#include "fiber.hpp"
#include "vt.hpp"
#include <algorithm>
#include <cstdio>
#include <set>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

namespace fiber
{
enum { MAXF = 6, STACK = 512 * 1024 };
enum State { FRESH, READY, DONE, GONE };
struct Fiber { ucontext_t c; State st = FRESH; std::function<void()> const* f = 0; std::uint64_t count = 0; };

static sim::Sim* S;
static Fiber F[MAXF]; static int NF, cur;
static ucontext_t home;
static std::vector<int> below;                              // nested mode: who was interrupted
static Report R;
static std::uint64_t total, left, limit_, mean; static unsigned spin;
static std::vector<std::uint64_t> points;
static std::set<std::uintptr_t> hot; static int hotness, hotleft; static bool pending;
static bool nested; static int mode, abandon;

static void to(int i)
{
    int me = cur; cur = i;
    if(F[i].st == FRESH) F[i].st = READY;
    swapcontext(&F[me].c, &F[i].c);
}

static void leave(int i)
{
    ++R.switches; S->step();
    bool gone = abandon && S->choose(8) == 1;
    S->ev("@%llu f%d%s->f%d", (unsigned long long)total, cur, gone ? " abandoned" : "", i);
    if(gone) { --abandon; S->fault("abandoned_operation"); F[cur].st = GONE; }
    else if(nested) { below.push_back(cur); R.nested = std::max<std::uint64_t>(R.nested, below.size()); }
    S->fault(nested ? "interrupt" : "fiber_switch");
    to(i);
}

static int others(int* o) { int n = 0; for(int i = 0; i < NF; ++i) if(i != cur && (nested ? F[i].st == FRESH : F[i].st == FRESH || F[i].st == READY)) o[n++] = i; return n; }

static bool interrupt()
{
    if(vt::guarded) return false;                           // first initialisation of a constant
    int o[MAXF], n = others(o);
    if(!n) return false;
    leave(o[S->choose(n)]);
    return true;
}

static void access(std::uintptr_t a, std::size_t, unsigned flags)
{
    ++total;
    if(total > limit_) { std::fprintf(stderr, "no progress\n"); _exit(78); }
    if(mode == 0) { if(left) --left; if(!left && !vt::guarded) { left = 1 + S->choose(2 * mean); interrupt(); } }
    else if(mode == 1) { if(!points.empty() && total >= points.back() && !vt::guarded) { points.pop_back(); interrupt(); } }
    else
    {
        if(pending) { pending = false; interrupt(); }
        if(hotleft && hot.count(a >> 3)) { --hotleft; if(S->choose(hotness + 1) == 1) interrupt(); pending = S->choose(hotness + 1) == 1; }
    }
    if((flags & vt::ATOMIC) && !nested && (++spin & 255) == 0) interrupt();
}

static bool block(void const*) { return !nested && interrupt(); }

static void body()
{
    { vt::On on; (*F[cur].f)(); }
    F[cur].st = DONE;
    for(;;)
    {
        int next = -1;
        if(nested && !below.empty()) { next = below.back(); below.pop_back(); }
        else
        {
            int o[MAXF], n = 0;
            for(int i = 0; i < NF; ++i) if(F[i].st == FRESH || F[i].st == READY) o[n++] = i;
            if(n) next = o[S->choose(n)];
        }
        if(next < 0) { setcontext(&home); _exit(70); }
        if(F[next].st == GONE || F[next].st == DONE) continue;
        S->ev("@%llu f%d done->f%d", (unsigned long long)total, cur, next);
        to(next);
    }
}

Report weave(sim::Sim& s, std::vector<std::function<void()>> const& f, std::vector<sched::Solo> const& solo)
{
    S = &s; NF = (int)f.size(); R = Report(); total = 0; spin = 0; pending = false; below.clear(); points.clear();
    std::uint64_t sum = 0;
    for(int i = 0; i < NF; ++i)
    {
        F[i].f = &f[i]; F[i].st = FRESH; F[i].count = 0; sum += solo[i].count;
        void* p = mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if(p == MAP_FAILED || getcontext(&F[i].c)) _exit(70);
        F[i].c.uc_stack.ss_sp = p; F[i].c.uc_stack.ss_size = STACK; F[i].c.uc_link = 0;
        makecontext(&F[i].c, body, 0);
    }
    limit_ = sum * 20 + 1000000;
    // memory that two of them use and at least one writes
    hot.clear();
    std::map<std::uintptr_t, int> use; std::set<std::uintptr_t> written;
    for(sched::Solo const& x: solo) for(auto& g: x.granules) { ++use[g.first]; if(g.second) written.insert(g.first); }
    for(std::uintptr_t g: written) if(use[g] > 1) hot.insert(g);
    nested = s.choose(2) == 0; abandon = s.choose(3) == 2 ? 1 + (int)s.choose(2) : 0;
    mode = (int)s.choose(hot.empty() ? 2 : 5);
    if(mode >= 2) { mode = 2; s.probe("conflict_directed"); hotness = 1 + (int)s.choose(3); hotleft = 20000; }
    cur = (int)s.choose(NF);
    if(mode == 0)
    {
        static std::uint64_t const means[] = { 3000, 300, 40, 8 };
        mean = means[s.choose(4)];
        while(sum / mean > 4000) mean *= 4;
        left = 1 + s.choose(2 * mean);
    }
    else if(mode == 1)
    {
        unsigned d = 1 + (unsigned)s.choose(4);
        std::uint64_t span = s.choose(2) ? sum : solo[cur].count;
        for(unsigned i = 0; i < d; ++i) points.push_back(1 + s.choose(span ? span : 1));
        std::sort(points.rbegin(), points.rend());
    }
    s.ev("%s, mode %d, starts with f%d", nested ? "signal handlers" : "fibers", mode, cur);
    vt::hooks = vt::Hooks(); vt::hooks.access = access; vt::hooks.block = block;
    F[cur].st = READY;
    swapcontext(&home, &F[cur].c);
    vt::hooks = vt::Hooks();
    R.accesses = total;
    for(int i = 0; i < NF; ++i) R.done.push_back(F[i].st == DONE);
    return R;
}
}
