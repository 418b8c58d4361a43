#include "sched.hpp"
#include "vt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <atomic>
#include <algorithm>
#include <map>
#include <set>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <linux/futex.h>
#include <unistd.h>
#include <errno.h>

namespace sched
{
typedef std::uint32_t Clock;
struct VC { Clock c[MAXT]; };

enum Kind { NW, AW, NR, AR };
struct Cell
{
    std::uintptr_t key;
    unsigned char who;
    Clock c[8][4][MAXT];           // byte, kind, thread
};

struct Shadow
{
    enum { SLOTS = 1 << 21 };
    std::uint32_t* index; Cell* cells; std::uint32_t n;
    Shadow(): n(0)
    {
        index = static_cast<std::uint32_t*>(mmap(0, SLOTS * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        cells = static_cast<Cell*>(mmap(0, (std::size_t)SLOTS * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    }
    Cell& get(std::uintptr_t g)
    {
        // neighbouring granules share index lines
        std::size_t h = ((g >> 4) * 0x9E3779B97F4A7C15ull >> 43 << 4 | (g & 15)) & (SLOTS - 1);
        for(;; h = (h + 1) & (SLOTS - 1))
        {
            if(!index[h])
            {
                if(n >= SLOTS / 2) { std::fprintf(stderr, "INFRA: shadow full\n"); _exit(70); }
                index[h] = ++n; cells[n - 1].key = g; return cells[n - 1];
            }
            if(cells[index[h] - 1].key == g) return cells[index[h] - 1];
        }
    }
};

struct Thread
{
    std::atomic<int> go{ 0 };
    bool done = false; void const* blocked = 0;
    std::uintptr_t lo = 0, hi = 0;      // its stack
    int prio = 0;
    std::uint64_t count = 0;
    std::function<void()> const* f = 0;
    pthread_t h;
};

static sim::Sim* S;
static Thread T[MAXT]; static int NT, cur;
static VC vc[MAXT];
static std::map<void const*, VC>* syncs;
static Shadow* shadow;
static Report R;
static std::function<std::string(std::uintptr_t)> const* where_;
static std::uint64_t total, left, spin;
static std::uint64_t limit_;
static int mode; static std::uint64_t mean;
static std::set<std::uintptr_t> hot; static int hotness, hotleft; static bool pending;
static std::vector<std::uint64_t> points; static int low;
static std::atomic<int> finished;

static void futex_wait(std::atomic<int>& w) { while(w.load() == 0) syscall(SYS_futex, &w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); w.store(0); }
static void futex_wake(std::atomic<int>& w) { w.store(1); syscall(SYS_futex, &w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

static int runnable(int except, int* out)
{
    int n = 0;
    for(int i = 0; i < NT; ++i) if(i != except && !T[i].done && !T[i].blocked) out[n++] = i;
    return n;
}

static void handover(int to)
{
    int me = cur;
    ++R.switches;
    S->ev("@%llu t%d->t%d", (unsigned long long)total, me, to);
    S->step();
    cur = to;
    futex_wake(T[to].go);
    if(!T[me].done) futex_wait(T[me].go);
}

static void draw()
{
    switch(mode)
    {
    case 0: left = 1 + S->choose(2 * mean); break;
    default: left = ~0ull;
    }
}

static int highest(int* c, int n) { int b = c[0]; for(int i = 1; i < n; ++i) if(T[c[i]].prio > T[b].prio) b = c[i]; return b; }

static void preempt(bool forced = false)
{
    int c[MAXT], n = runnable(cur, c);
    if(mode == 0 || mode == 3 || forced)
    {
        if(n) { int to = c[S->choose(n)]; if(mode == 0) draw(); handover(to); }
        else if(mode == 0) draw();
        return;
    }
    T[cur].prio = low--;
    if(n) { int to = highest(c, n); handover(to); }
}

static void conflict(std::uintptr_t a, unsigned b, int kind, int u, int kk)
{
    if(R.race) return;
    R.race = true;
    static char const* nm[] = { "write", "atomic write", "read", "atomic read" };
    R.text = std::string(nm[kind]) + " by thread " + std::to_string(cur) + " and unordered " + nm[kk] + " by thread " + std::to_string(u) + " of " + (*where_)((a & ~7ull) + b);
}

static void record(std::uintptr_t a, std::size_t n, unsigned flags)
{
    int t = cur;
    int k = flags & vt::WRITE ? (flags & vt::ATOMIC ? AW : NW) : (flags & vt::ATOMIC ? AR : NR);
    static unsigned char const conf[4] = { 1 << NW | 1 << AW | 1 << NR | 1 << AR, 1 << NW | 1 << NR, 1 << NW | 1 << AW, 1 << NW };
    Clock now = vc[t].c[t];
    while(n)
    {
        unsigned off = a & 7, m = 8 - off < n ? 8 - off : (unsigned)n;
        Cell& c = shadow->get(a >> 3);
        if(c.who & ~(1u << t))
        {
            if(!(c.who & 1u << t)) ++R.shared;
            for(unsigned b = off; b < off + m; ++b)
                for(int u = 0; u < NT; ++u) if(u != t)
                    for(int kk = 0; kk < 4; ++kk)
                        if(conf[k] >> kk & 1 && c.c[b][kk][u] > vc[t].c[u]) conflict(a, b, k, u, kk);
        }
        c.who |= 1u << t;
        for(unsigned b = off; b < off + m; ++b) c.c[b][k][t] = now;
        a += m; n -= m;
    }
}

static void access(std::uintptr_t a, std::size_t n, unsigned flags)
{
    Thread& me = T[cur];
    ++total; ++me.count;
    if(total > limit_) { R.deadlock = true; std::fprintf(stderr, "no progress\n"); _exit(78); }
    if(mode == 0) { if(--left == 0) preempt(); }
    else if(mode == 3)
    {
        if(pending) { pending = false; preempt(); }
        if(hotleft && hot.count(a >> 3)) { --hotleft; if(S->choose(hotness + 1) == 1) preempt(); pending = S->choose(hotness + 1) == 1; }
    }
    else if(!points.empty() && total >= points.back()) { points.pop_back(); preempt(); }
    if(flags & vt::ATOMIC) { if((++spin & 255) == 0) preempt(true); }       // a spinning thread does not starve the others
    if(a >= me.lo && a < me.hi) return;
    record(a, n, flags);
}

static void sync(void const* p, vt::Order o, bool store)
{
    ++R.sync;
    if(o == vt::RELAXED && !vt::fence_seen) return;
    if(o == vt::RELAXED) o = vt::ACQ_REL;
    VC& l = (*syncs)[p];
    if(o & vt::ACQUIRE) for(int i = 0; i < NT; ++i) if(l.c[i] > vc[cur].c[i]) vc[cur].c[i] = l.c[i];
    if(o & vt::RELEASE) { for(int i = 0; i < NT; ++i) if(vc[cur].c[i] > l.c[i]) l.c[i] = vc[cur].c[i]; ++vc[cur].c[cur]; }
}

static bool block(void const* p)
{
    int me = cur, c[MAXT];
    T[me].blocked = p;
    int n = runnable(me, c);
    if(!n) { R.deadlock = true; return false; }
    S->probe("blocked_on_a_lock");
    int to = mode == 0 || mode == 3 ? c[S->choose(n)] : highest(c, n);
    handover(to);
    T[me].blocked = 0;
    return true;
}
static void wake(void const* p) { for(int i = 0; i < NT; ++i) if(T[i].blocked == p) T[i].blocked = 0; }

static void* body(void* x)
{
    int id = (int)(std::intptr_t)x;
    Thread& me = T[id];
    pthread_attr_t at; pthread_getattr_np(pthread_self(), &at);
    void* a; std::size_t n; pthread_attr_getstack(&at, &a, &n); pthread_attr_destroy(&at);
    me.lo = reinterpret_cast<std::uintptr_t>(a); me.hi = me.lo + n;
    futex_wait(me.go);
    { vt::On on; (*me.f)(); }
    me.done = true;
    int c[MAXT]; n = runnable(id, c);
    if(n)
    {
        int to = mode == 0 || mode == 3 ? c[S->choose(n)] : highest(c, (int)n);
        handover(to);
    }
    else
    {
        for(int i = 0; i < NT; ++i) if(!T[i].done) _exit(78);      // everybody left is blocked
        futex_wake(finished);
    }
    return 0;
}

static Solo solo_; static std::uintptr_t fresh_lo, fresh_hi, stack_lo, stack_hi;
static void count_only(std::uintptr_t a, std::size_t n, unsigned flags)
{
    if(++solo_.count > 50000000) _exit(78);
    if((a >= fresh_lo && a < fresh_hi) || (a >= stack_lo && a < stack_hi)) return;
    for(std::uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; ++g) { bool& w = solo_.granules[g]; w = w || (flags & vt::WRITE); }
}

Solo alone(std::function<void()> const& f, char const* fresh)
{
    solo_ = Solo();
    fresh_lo = (std::uintptr_t)fresh; fresh_hi = (std::uintptr_t)vt::arena_hi;
    std::uintptr_t sp = (std::uintptr_t)__builtin_frame_address(0); stack_hi = sp + 65536; stack_lo = sp - (4 << 20);
    vt::hooks = vt::Hooks(); vt::hooks.access = count_only;
    { vt::On on; f(); }
    vt::hooks = vt::Hooks();
    return solo_;
}
void save(Solo const& s, sim::Bytes& b)
{
    auto put = [&](std::uint64_t x) { for(int i = 0; i < 8; ++i) b.push_back((unsigned char)(x >> (8 * i))); };
    put(s.count); put(s.granules.size());
    for(auto& g: s.granules) put(g.first << 1 | g.second);
}
Solo load(sim::Bytes const& b, std::size_t& pos)
{
    auto get = [&]() { std::uint64_t x = 0; for(int i = 0; i < 8; ++i) x |= (std::uint64_t)b.at(pos++) << (8 * i); return x; };
    Solo s; s.count = get(); std::uint64_t n = get();
    while(n--) { std::uint64_t x = get(); s.granules[x >> 1] = x & 1; }
    return s;
}

Report together(sim::Sim& s, std::vector<std::function<void()>> const& f, std::vector<Solo> const& solo, std::function<std::string(std::uintptr_t)> const& where)
{
    S = &s; NT = (int)f.size(); R = Report(); where_ = &where;
    total = 0; spin = 0; pending = false; vt::fence_seen = false; finished.store(0);
    shadow = new Shadow; syncs = new std::map<void const*, VC>;
    std::memset(vc, 0, sizeof vc);
    std::uint64_t sum = 0;
    for(int i = 0; i < NT; ++i) { T[i].done = false; T[i].blocked = 0; T[i].go.store(0); T[i].f = &f[i]; T[i].count = 0; vc[i].c[i] = 1; sum += solo[i].count; }
    limit_ = sum * 20 + 1000000;
    points.clear(); low = -1;
    // memory that two of them use and at least one writes: preempt around those accesses
    hot.clear();
    std::map<std::uintptr_t, int> use; std::set<std::uintptr_t> written;
    for(Solo const& x: solo) for(auto& g: x.granules) { ++use[g.first]; if(g.second) written.insert(g.first); }
    for(std::uintptr_t g: written) if(use[g] > 1) hot.insert(g);
    mode = (int)s.choose(hot.empty() ? 3 : 6);
    if(mode > 3) mode = 3;
    if(mode == 3) s.probe("conflict_directed_schedules");
    if(mode == 3)
    {
        hotness = 1 + (int)s.choose(3); hotleft = 20000; cur = (int)s.choose(NT);
    }
    else if(mode == 0)
    {
        static std::uint64_t const means[] = { 3000, 300, 40, 8, 2 };
        mean = means[s.choose(5)];
        while(sum / mean > 4000) mean *= 4;
    }
    else
    {
        // a few preemptions, anywhere (as in PCT); mode 2: exactly one, inside the thread that runs first
        unsigned d = mode == 2 ? 1 : 1 + (unsigned)s.choose(4);
        int first = (int)s.choose(NT);
        for(int i = 0; i < NT; ++i) T[i].prio = 100 + (i - first + NT) % NT * -1;
        for(unsigned i = 0; i < d; ++i)
        {
            std::uint64_t span = mode == 2 ? solo[first].count : sum;
            points.push_back(1 + s.choose(span ? span : 1));
        }
        std::sort(points.rbegin(), points.rend());
        cur = first;
    }
    static char const* nm[] = { "random", "priorities", "single", "conflicts" };
    s.ev("schedule %s", nm[mode]);
    if(mode == 0) { cur = (int)s.choose(NT); draw(); }
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 512 * 1024);
    for(int i = 0; i < NT; ++i) if(pthread_create(&T[i].h, &at, body, (void*)(std::intptr_t)i)) _exit(70);
    // wait until all of them are parked is not needed: the baton is a word each of them sleeps on
    vt::hooks = vt::Hooks();
    vt::hooks.access = access; vt::hooks.sync = sync; vt::hooks.block = block; vt::hooks.wake = wake;
    futex_wake(T[cur].go);
    futex_wait(finished);
    vt::hooks = vt::Hooks();
    for(int i = 0; i < NT; ++i) pthread_join(T[i].h, 0);
    R.accesses = total;
    return R;
}

} // namespace sched

namespace sim
{

static void wr(int fd, void const* p, std::size_t n) { char const* q = static_cast<char const*>(p); while(n) { ssize_t k = write(fd, q, n); if(k <= 0) _exit(70); q += k; n -= (std::size_t)k; } }
static bool rd(int fd, void* p, std::size_t n) { char* q = static_cast<char*>(p); while(n) { ssize_t k = read(fd, q, n); if(k < 0 && errno == EINTR) continue; if(k <= 0) return false; q += k; n -= (std::size_t)k; } return true; }
static void wrs(int fd, std::string const& s) { std::uint64_t n = s.size(); wr(fd, &n, 8); wr(fd, s.data(), n); }
static bool rds(int fd, std::string& s) { std::uint64_t n; if(!rd(fd, &n, 8)) return false; s.resize(n); return rd(fd, &s[0], n); }

static void on_real(int) { _exit(78); }
static void child_limits()
{
    signal(SIGALRM, on_real); signal(SIGPROF, on_real);
    struct itimerval it; std::memset(&it, 0, sizeof it); it.it_value.tv_sec = 60; setitimer(ITIMER_REAL, &it, 0);
    it.it_value.tv_sec = 20; setitimer(ITIMER_PROF, &it, 0);
}
static void fate(pid_t p)
{
    int st;
    while(waitpid(p, &st, 0) < 0) if(errno != EINTR) _exit(70);
    if(WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(79); }
    if(WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
}

void isolated(Sim& S, std::function<void()> const& f)
{
    int fd[2]; if(pipe(fd)) _exit(70);
    pid_t p = fork(); if(p < 0) _exit(70);
    if(p == 0)
    {
        close(fd[0]); child_limits();
        Violation v; bool bad = false;
        try { f(); S.check_deferred(); }
        catch(Violation& x) { v = x; bad = true; }
        catch(std::exception& x) { v.cls = "unexpected-exception"; v.msg = x.what(); bad = true; }
        std::uint64_t h[5] = { bad, S.pos_, S.now_, S.steps_, (std::uint64_t)S.nontrivial_ };
        wr(fd[1], h, sizeof h); wrs(fd[1], v.cls); wrs(fd[1], v.msg); wrs(fd[1], S.text_);
        _exit(0);
    }
    close(fd[1]);
    std::uint64_t h[5]; Violation v; std::string text;
    bool ok = rd(fd[0], h, sizeof h) && rds(fd[0], v.cls) && rds(fd[0], v.msg) && rds(fd[0], text);
    close(fd[0]);
    fate(p);
    if(!ok) _exit(70);
    S.pos_ = h[1]; S.now_ = h[2]; S.steps_ = h[3]; S.nontrivial_ = h[4] != 0; S.text_ = text;
    if(h[0]) throw v;
}

Bytes in_child(Sim&, std::function<Bytes()> const& f)
{
    int fd[2]; if(pipe(fd)) _exit(70);
    pid_t p = fork(); if(p < 0) _exit(70);
    if(p == 0)
    {
        close(fd[0]); child_limits();
        Bytes b;
        try { b = f(); } catch(...) { _exit(71); }
        wrs(fd[1], std::string(b.begin(), b.end()));
        _exit(0);
    }
    close(fd[1]);
    std::string s; bool ok = rds(fd[0], s);
    close(fd[0]);
    fate(p);
    if(!ok) _exit(70);
    return Bytes(s.begin(), s.end());
}
}
