#include "core.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <set>
#include <atomic>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <malloc.h>
#include <errno.h>

#if defined(__SANITIZE_ADDRESS__)
# define SIM_ASAN 1
#elif defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define SIM_ASAN 1
# endif
#endif

extern "C" char const* __asan_default_options()
{
    return "exitcode=77:detect_leaks=0:abort_on_error=0:max_malloc_fill_size=4096:malloc_fill_byte=165:"
           "max_free_fill_size=256:free_fill_byte=90:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=1";
}
extern "C" char const* __ubsan_default_options() { return "print_stacktrace=0:exitcode=77"; }

namespace sim
{

std::uint64_t mix64(std::uint64_t x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

Rng::Rng(std::uint64_t seed) { s[0] = mix64(seed); s[1] = mix64(seed ^ 0x5851F42D4C957F2Dull) | 1; }

std::uint64_t Rng::next()
{
    std::uint64_t a = s[0], b = s[1];
    std::uint64_t r = a + b;
    b ^= a;
    s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
    s[1] = (b << 37) | (b >> 27);
    return r;
}

std::uint64_t fnv(void const* p, std::size_t n, std::uint64_t h)
{
    unsigned char const* q = static_cast<unsigned char const*>(p);
    for(std::size_t i = 0; i < n; ++i) h = (h ^ q[i]) * 0x100000001b3ull;
    return h;
}

std::string hex(void const* p, std::size_t n)
{
    static char const d[] = "0123456789abcdef";
    std::string s;
    unsigned char const* q = static_cast<unsigned char const*>(p);
    for(std::size_t i = 0; i < n; ++i) { s += d[q[i] >> 4]; s += d[q[i] & 15]; }
    return s;
}

// ------------------------------------------------------------------ shared state

enum { MAXTAPE = 1 << 18, MAXW = 64, MAXNAMES = 256, COVBITS = 1 << 24 };

struct Name { char kind; char name[63]; std::atomic<std::uint64_t> count; std::atomic<std::uint64_t> runs; };

struct Slot        // one per worker or per forked replay
{
    std::uint64_t run;
    std::uint64_t hash;
    std::uint64_t tape_len;
    std::uint64_t dv;              // violation recorded
    std::uint64_t nontrivial;
    char cls[128];
    char msg[4096];
    std::uint32_t tape[MAXTAPE];
};

struct Shared
{
    std::atomic<std::uint64_t> minviol;
    std::atomic<std::uint32_t> lock;
    std::atomic<std::uint64_t> steps, simtime, oracles, nontrivial, executed;
    std::atomic<std::uint32_t> nnames;
    Name names[MAXNAMES];
    std::atomic<std::uint32_t> cov[COVBITS / 32];
    Slot slot[MAXW];
};

static Shared* G;
static Slot* cur;
static bool counting = true;

static std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }

Register::Register(char const* name, void (*run)(Sim&), unsigned cpu, void (*prepare)())
{
    Scenario s = { name, run, cpu, prepare };
    scenarios().push_back(s);
}

static double wall()
{
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

// ------------------------------------------------------------------ Sim

[[noreturn]] static void infra(char const* why)
{
    std::fprintf(stderr, "INFRA: %s\n", why);
    _exit(70);
}

std::uint64_t Sim::choose(std::uint64_t n)
{
    if(n <= 1) return 0;
    if(n > 0x100000000ull) infra("choose: range too large");
    if(synth_) return ((synth_->next() >> 32) * n) >> 32;
    std::uint32_t v;
    if(replay_)
        v = pos_ < in_.size() ? in_[pos_] : 0;
    else
        v = static_cast<std::uint32_t>(((rng_.next() >> 32) * n) >> 32);
    v = static_cast<std::uint32_t>(v % n);
    if(*tape_len_ >= MAXTAPE) infra("tape overflow");
    tape_[(*tape_len_)++] = v;
    ++pos_;
    return v;
}

std::uint64_t Sim::strat(std::uint64_t n)
{
    if(n <= 1) return 0;
    if(replay_ || synth_) return choose(n);
    std::uint32_t v = static_cast<std::uint32_t>(strat_ % n);
    strat_ /= n;
    if(*tape_len_ >= MAXTAPE) infra("tape overflow");
    tape_[(*tape_len_)++] = v;
    ++pos_;
    return v;
}

std::uint64_t Sim::u64()
{
    std::uint64_t a = choose(0x100000000ull), b = choose(0x100000000ull);
    return (a << 32) | b;
}

std::uint64_t Sim::edgy64()
{
    switch(choose(8))
    {
    case 0: return 0;
    case 1: return choose(4);
    case 2: return choose(256);
    case 3: return 1ull << choose(64);
    case 4: return choose(0x100000000ull);
    case 5: return choose(0x100000000ull) << 32;
    case 6: return ~(std::uint64_t)choose(4);
    default: return u64();
    }
}

std::size_t Sim::length(std::size_t block, std::size_t max)
{
    std::size_t r;
    switch(choose(6))
    {
    case 0: r = choose(8); break;
    case 1: r = choose(block + 2); break;
    case 2: { std::size_t k = 1 + choose(3); long d = (long)choose(7) - 3; long v = (long)(k * block) + d; r = v < 0 ? 0 : v; break; }
    case 3: { std::size_t k = 1 + choose(2); std::size_t d = choose(20); r = k * block > d ? k * block - d : 0; break; }
    case 4: r = choose(4 * block + 1); break;
    default: r = choose(max + 1); break;
    }
    return r > max ? max : r;
}

void Sim::fill(void* p, std::size_t n)
{
    std::uint32_t v = (std::uint32_t)choose(0x100000000ull);
    unsigned char* q = static_cast<unsigned char*>(p);
    switch(v % 16)
    {
    case 0: std::memset(q, 0, n); return;
    case 1: std::memset(q, 0xFF, n); return;
    case 2: std::memset(q, 0x80, n); return;
    default: break;
    }
    Rng r(v);
    std::size_t i = 0;
    for(; i + 8 <= n; i += 8) { std::uint64_t x = r.next(); std::memcpy(q + i, &x, 8); }
    if(i < n) { std::uint64_t x = r.next(); std::memcpy(q + i, &x, n - i); }
}

Bytes Sim::data(std::size_t n)
{
    Bytes b(n);
    if(n) fill(b.data(), n);
    return b;
}

void Sim::ev(char const* fmt, ...)
{
    char buf[512];
    va_list ap; va_start(ap, fmt);
    int n = std::vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if(n < 0) n = 0;
    if(n >= (int)sizeof buf) n = sizeof buf - 1;
    *hash_ = fnv(buf, n, mix64(*hash_));
    if(verbose_)
    {
        char pre[64];
        std::snprintf(pre, sizeof pre, "t=%llu ", (unsigned long long)now_);
        text_ += pre; text_.append(buf, n); text_ += '\n';
    }
}

void Sim::fail(char const* cls, char const* fmt, ...)
{
    char buf[2048];
    va_list ap; va_start(ap, fmt);
    std::vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if(deferred_) throw dv_;
    Violation v; v.cls = cls; v.msg = buf;
    throw v;
}

void Sim::fail_later(char const* cls, char const* fmt, ...)
{
    if(deferred_) return;
    char buf[2048];
    va_list ap; va_start(ap, fmt);
    std::vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    deferred_ = true; dv_.cls = cls; dv_.msg = buf;
}

void Sim::check_deferred() { if(deferred_) throw dv_; }

static Name* name_entry(char kind, char const* what)
{
    // nothing here allocates: the caller may be filling memory that it will revoke
    static Name* cache[1024];
    std::size_t at = (std::size_t)fnv(what, std::strlen(what)) + kind;
    for(; cache[at & 1023]; ++at) { Name* e = cache[at & 1023]; if(e->kind == kind && std::strncmp(e->name, what, sizeof e->name - 1) == 0) return e; }
    while(G->lock.exchange(1)) {}
    std::uint32_t n = G->nnames;
    Name* e = 0;
    for(std::uint32_t i = 0; i < n; ++i)
        if(G->names[i].kind == kind && std::strncmp(G->names[i].name, what, sizeof e->name - 1) == 0) { e = &G->names[i]; break; }
    if(!e)
    {
        if(n >= MAXNAMES) infra("too many names");
        e = &G->names[n];
        e->kind = kind;
        std::strncpy(e->name, what, sizeof e->name - 1);
        G->nnames = n + 1;
    }
    G->lock = 0;
    cache[at & 1023] = e;
    return e;
}

void Sim::fault(char const* kind, std::uint64_t k) { nontrivial_ = true; if(counting) name_entry('f', kind)->count += k; }
void Sim::probe(char const* what, std::uint64_t k) { if(counting) name_entry('p', what)->count += k; }
void Sim::oracle(std::uint64_t k) { if(counting) G->oracles += k; }

void Sim::cov(std::uint64_t a, std::uint64_t b, std::uint64_t c, std::uint64_t d)
{
    if(!counting) return;
    std::uint64_t h = mix64(a * 0x9E3779B97F4A7C15ull ^ mix64(b + 1) ^ mix64(mix64(c + 2)) ^ mix64(mix64(mix64(d + 3))));
    std::uint32_t bit = (std::uint32_t)(h % COVBITS);
    std::uint32_t m = 1u << (bit & 31);
    if(!(G->cov[bit >> 5].load(std::memory_order_relaxed) & m)) G->cov[bit >> 5].fetch_or(m, std::memory_order_relaxed);
}

// ------------------------------------------------------------------ one run

static void on_cpu(int) { _exit(78); }

static void cpu_limit(unsigned s)
{
    struct itimerval it; std::memset(&it, 0, sizeof it);
    it.it_value.tv_sec = s;
    setitimer(ITIMER_PROF, &it, 0);
}

static void __attribute__((noinline)) dirty_stack(unsigned char b)
{
    volatile unsigned char buf[48 * 1024];
    for(std::size_t i = 0; i < sizeof buf; ++i) buf[i] = b;
}

static void __attribute__((noinline)) call(Scenario const& sc, Sim& S) { sc.run(S); }

// returns true on violation
static bool execute(Scenario const& sc, Sim& S, Slot* sl)
{
    sl->hash = 0x1234; sl->tape_len = 0; sl->cls[0] = 0; sl->msg[0] = 0; sl->dv = 0;
    S.tape_ = sl->tape; S.tape_len_ = &sl->tape_len; S.hash_ = &sl->hash;
    Violation v; bool bad = false;
    try
    {
        static unsigned char const pats[4] = { 0x00, 0xA5, 0xFF, 0x5A };
        S.dirt_ = pats[S.choose(4)];
#if !defined(SIM_ASAN)
        mallopt(M_PERTURB, S.dirt_ ^ 0xFF);
        dirty_stack(S.dirt_);
#endif
        call(sc, S);
        S.check_deferred();
    }
    catch(Violation& x) { v = x; bad = true; }
    catch(std::exception& x) { v.cls = "unexpected-exception"; v.msg = x.what(); bad = true; }
    catch(...) { v.cls = "unexpected-exception"; v.msg = "unknown exception"; bad = true; }
    if(S.deferred_) { v = S.dv_; bad = true; }
    if(bad)
    {
        std::string c = std::string(sc.name) + "/" + v.cls;
        std::strncpy(sl->cls, c.c_str(), sizeof sl->cls - 1);
        std::strncpy(sl->msg, v.msg.c_str(), sizeof sl->msg - 1);
        sl->dv = 1;
    }
    sl->nontrivial = S.nontrivial_;
    return bad;
}

static void set_gen(Sim& S, std::uint64_t seed, Scenario const& sc, std::uint64_t idx)
{
    S.replay_ = false; S.strat_ = idx;
    S.rng_ = Rng(mix64(seed) ^ mix64(fnv(sc.name, std::strlen(sc.name))) ^ mix64(idx * 0x9E3779B97F4A7C15ull + 77));
}

static void classify_status(Scenario const& sc, int st, Slot* sl)
{
    char buf[120];
    if(WIFSIGNALED(st)) std::snprintf(buf, sizeof buf, "%s/crash-sig%d", sc.name, WTERMSIG(st));
    else if(WEXITSTATUS(st) == 77) std::snprintf(buf, sizeof buf, "%s/sanitizer", sc.name);
    else if(WEXITSTATUS(st) == 78) std::snprintf(buf, sizeof buf, "%s/hang", sc.name);
    else std::snprintf(buf, sizeof buf, "%s/exit-%d", sc.name, WEXITSTATUS(st));
    std::strncpy(sl->cls, buf, sizeof sl->cls - 1);
    if(!sl->msg[0]) std::strncpy(sl->msg, "the process executing the run was ended by the code under test (crash, failed assertion, sanitizer report or hang)", sizeof sl->msg - 1);
    sl->dv = 1;
}

static void quiet_stderr()
{
    int fd = open("/dev/null", O_WRONLY);
    if(fd >= 0) { dup2(fd, 2); close(fd); }
}

struct Outcome { std::string cls, msg; std::uint64_t hash; std::vector<std::uint32_t> tape; std::uint64_t nontrivial; };

// generated runs that the same process executes first: the code under test may keep state between runs
struct History { std::uint64_t seed; std::vector<std::uint64_t> runs; };

static void run_history(Scenario const& sc, History const& h, Slot* sl)
{
    sl->run = ~1ull;
    for(std::uint64_t i: h.runs)
    {
        Sim S; set_gen(S, h.seed, sc, i);
        cpu_limit(sc.cpu_limit_s);
        if(execute(sc, S, sl)) { sl->dv = 0; _exit(69); }
    }
    sl->run = 0;
    sl->cls[0] = 0; sl->msg[0] = 0; sl->dv = 0; sl->hash = 0; sl->tape_len = 0;
}

// run a tape (or a generated run) in a forked child
static Outcome run_forked(Scenario const& sc, std::vector<std::uint32_t> const* tape, std::uint64_t seed, std::uint64_t idx, bool quiet, int slot = 0, History const* hist = 0)
{
    Slot* sl = &G->slot[slot];
    sl->cls[0] = 0; sl->msg[0] = 0; sl->dv = 0; sl->hash = 0; sl->tape_len = 0; sl->run = 0;
    std::fflush(0);
    pid_t p = fork();
    if(p < 0) infra("fork");
    if(p == 0)
    {
        counting = false; cur = sl;
        if(quiet) quiet_stderr();
        signal(SIGPROF, on_cpu);
        cpu_limit(sc.cpu_limit_s + 20);
        if(sc.prepare) sc.prepare();
        if(hist) run_history(sc, *hist, sl);
        cpu_limit(sc.cpu_limit_s);
        Sim S;
        if(tape) { S.replay_ = true; S.in_ = *tape; } else set_gen(S, seed, sc, idx);
        execute(sc, S, sl);
        _exit(0);
    }
    int st;
    while(waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if(hist && sl->run == ~1ull) sl->dv = 0;             // something else happened on the way
    else if(WIFEXITED(st) && WEXITSTATUS(st) == 70)
    {
        if(!tape && !hist) infra("child infrastructure failure");
        sl->dv = 0;                                     // a candidate of the minimiser that the harness cannot execute
    }
    else if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) classify_status(sc, st, sl);
    Outcome o; o.hash = sl->hash; o.nontrivial = sl->nontrivial;
    if(sl->dv) { o.cls = sl->cls; o.msg = sl->msg; }
    o.tape.assign(sl->tape, sl->tape + sl->tape_len);
    return o;
}

// ------------------------------------------------------------------ minimiser

static std::vector<std::uint32_t> minimise(Scenario const& sc, std::vector<std::uint32_t> t, std::string const& cls, double budget, std::uint64_t& tries, History const* hist)
{
    double end = wall() + budget;
    tries = 0;
    auto bad = [&](std::vector<std::uint32_t> const& c) -> bool
    {
        ++tries;
        return run_forked(sc, &c, 0, 0, true, 0, hist).cls == cls;
    };
    bool progress = true;
    while(progress && wall() < end)
    {
        progress = false;
        // delete spans
        for(std::size_t w = t.size() / 2; w >= 1 && wall() < end; w /= 2)
        {
            for(std::size_t i = 0; i + w <= t.size() && wall() < end;)
            {
                std::vector<std::uint32_t> c(t.begin(), t.begin() + i);
                c.insert(c.end(), t.begin() + i + w, t.end());
                if(bad(c)) { t = c; progress = true; }
                else i += w;
            }
        }
        // zero spans
        for(std::size_t w = std::max<std::size_t>(1, t.size() / 4); w >= 1 && wall() < end; w /= 2)
        {
            for(std::size_t i = 0; i + w <= t.size() && wall() < end; i += w)
            {
                bool nz = false;
                for(std::size_t j = i; j < i + w; ++j) nz = nz || t[j];
                if(!nz) continue;
                std::vector<std::uint32_t> c = t;
                std::fill(c.begin() + i, c.begin() + i + w, 0);
                if(bad(c)) { t = c; progress = true; }
            }
        }
        // shrink values
        for(std::size_t i = 0; i < t.size() && wall() < end; ++i)
        {
            std::uint32_t lo = 0;
            while(t[i] > lo && wall() < end)
            {
                std::vector<std::uint32_t> c = t;
                std::uint32_t m = lo + (t[i] - lo) / 2;
                c[i] = m;
                if(bad(c)) { t = c; progress = true; }
                else lo = m + 1;
            }
        }
        while(!t.empty() && t.back() == 0) t.pop_back();
        if(!bad(t)) break;
    }
    return t;
}

// ------------------------------------------------------------------ replay files

static std::string esc(std::string const& s)
{
    std::string r;
    for(char c: s) { if(c == '\n') r += "\\n"; else r += c; }
    return r;
}

static bool write_replay(std::string const& path, char const* prop, char const* build, Scenario const& sc, std::uint64_t seed, std::uint64_t idx,
    Outcome const& o, std::vector<std::uint32_t> const& tape, char const* how, History const* hist)
{
    FILE* f = std::fopen(path.c_str(), "w");
    if(!f) return false;
    std::fprintf(f, "vsim-replay 1\nproperty %s\nbuild %s\nscenario %s\nseed %llu\nrun %llu\nform %s\nclass %s\nhash %016llx\nmessage %s\n",
        prop, build, sc.name, (unsigned long long)seed, (unsigned long long)idx, how, o.cls.c_str(), (unsigned long long)o.hash, esc(o.msg).c_str());
    if(hist)
    {
        std::fprintf(f, "history %zu %llu\n", hist->runs.size(), (unsigned long long)hist->seed);
        for(std::uint64_t i: hist->runs) std::fprintf(f, "%llu\n", (unsigned long long)i);
    }
    std::fprintf(f, "tape %zu\n", tape.size());
    for(std::size_t i = 0; i < tape.size(); ++i) std::fprintf(f, "%u%c", tape[i], i % 20 == 19 ? '\n' : ' ');
    std::fprintf(f, "\nend\n");
    std::fclose(f);
    return true;
}

static std::string trace_of(Scenario const& sc, std::vector<std::uint32_t> const* tape, std::uint64_t seed, std::uint64_t idx, History const* hist = 0)
{
    // the trace is produced in a child that sends it through a pipe (a crash loses only the tail)
    int fd[2];
    if(pipe(fd) != 0) return "";
    std::fflush(0);
    pid_t p = fork();
    if(p == 0)
    {
        counting = false;
        close(fd[0]);
        quiet_stderr();
        signal(SIGPROF, on_cpu);
        cpu_limit(sc.cpu_limit_s + 20);
        if(sc.prepare) sc.prepare();
        if(hist) { cur = &G->slot[0]; run_history(sc, *hist, &G->slot[0]); }
        struct PipeSim: Sim {};
        Sim S; S.verbose_ = true;
        if(tape) { S.replay_ = true; S.in_ = *tape; } else set_gen(S, seed, sc, idx);
        bool bad = execute(sc, S, &G->slot[0]);
        std::string t = S.text_;
        if(bad) t += std::string("VIOLATED ") + G->slot[0].cls + ": " + G->slot[0].msg + "\n";
        std::size_t o = 0;
        while(o < t.size()) { ssize_t n = write(fd[1], t.data() + o, t.size() - o); if(n <= 0) break; o += n; }
        _exit(0);
    }
    close(fd[1]);
    std::string r; char b[4096]; ssize_t n;
    while((n = read(fd[0], b, sizeof b)) > 0) r.append(b, n);
    close(fd[0]);
    int st; waitpid(p, &st, 0);
    if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) r += "(trace ends with the crash)\n";
    return r;
}

// ------------------------------------------------------------------ batch

static std::string js(std::string const& s)
{
    std::string r = "\"";
    for(unsigned char c: s)
    {
        if(c == '"' || c == '\\') { r += '\\'; r += c; }
        else if(c == '\n') r += "\\n";
        else if(c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

struct PhaseResult { std::string name; std::uint64_t runs, executed, distinct, distinct_nt, nontrivial, rechecked; double wall; };

static Scenario const* find(std::string const& n)
{
    for(Scenario const& s: scenarios()) if(n == s.name) return &s;
    return 0;
}

static void run_workers(Scenario const& sc, std::uint64_t seed, std::uint64_t runs, unsigned W, double deadline, std::uint64_t* hashes,
    std::set<std::uint64_t> const& skip, std::uint64_t stride)
{
    // run i belongs to worker i mod W; nothing in a run depends on W
    std::vector<pid_t> pid(W);
    for(unsigned w = 0; w < W; ++w)
    {
        Slot* sl = &G->slot[w + 1];
        sl->run = ~0ull; sl->dv = 0; sl->cls[0] = 0;
        std::fflush(0);
        pid_t p = fork();
        if(p < 0) infra("fork");
        if(p == 0)
        {
            quiet_stderr();
            signal(SIGPROF, on_cpu);
            cur = sl;
            if(sc.prepare) { cpu_limit(600); sc.prepare(); }
            unsigned k = 0;
            for(std::uint64_t j = w; ; j += W)
            {
                std::uint64_t i = j * stride;
                if(i >= runs) break;
                if(i >= G->minviol.load()) break;
                if((++k & 15) == 0 && wall() > deadline) break;
                if(skip.count(i)) continue;
                sl->run = i;
                Sim S; set_gen(S, seed, sc, i);
                cpu_limit(sc.cpu_limit_s);
                bool bad = execute(sc, S, sl);
                if(bad)
                {
                    std::uint64_t m = G->minviol.load();
                    while(i < m && !G->minviol.compare_exchange_weak(m, i)) {}
                    _exit(0);
                }
                hashes[i] = (sl->hash & ~3ull) | 2 | (S.nontrivial_ ? 1 : 0);
                if(counting)
                {
                    if(S.nontrivial_) ++G->nontrivial;
                    G->steps += S.steps_; G->simtime += S.now_; ++G->executed;
                }
            }
            sl->run = ~0ull;
            _exit(0);
        }
        pid[w] = p;
    }
    for(unsigned done = 0; done < W;)
    {
        int st; pid_t p = wait(&st);
        if(p < 0) { if(errno == EINTR) continue; infra("wait"); }
        unsigned w = 0;
        while(w < W && pid[w] != p) ++w;
        if(w == W) continue;
        ++done;
        Slot* sl = &G->slot[w + 1];
        if(WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if(WIFEXITED(st) && WEXITSTATUS(st) == 70) { for(pid_t q: pid) kill(q, SIGKILL); infra("worker infrastructure failure"); }
        if(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { for(pid_t q: pid) kill(q, SIGKILL); infra("worker was killed (memory?)"); }
        if(sl->run == ~0ull) { for(pid_t q: pid) kill(q, SIGKILL); infra("worker failed outside a run"); }
        classify_status(sc, st, sl);
        std::uint64_t i = sl->run, m = G->minviol.load();
        while(i < m && !G->minviol.compare_exchange_weak(m, i)) {}
    }
}

int main_(int argc, char** argv, char const* prop, char const* build)
{
    // fixed addresses where the system allows it; nothing depends on it, but it makes wild reads repeatable
    if(!std::getenv("VSIM_NOASLR"))
    {
        setenv("VSIM_NOASLR", "1", 1);
        int per = personality(0xffffffff);
        if(per != -1 && !(per & ADDR_NO_RANDOMIZE) && personality(per | ADDR_NO_RANDOMIZE) != -1)
        {
            execv("/proc/self/exe", argv);
        }
    }

    G = static_cast<Shared*>(mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if(G == MAP_FAILED) infra("mmap");

    std::uint64_t seed = 1; unsigned W = 8; double limit = 600, minbudget = 60; std::string out, replay_out, replay, dump;
    struct Phase { std::string first; std::uint64_t second, recheck; };
    std::vector<Phase> phases;
    std::uint64_t dump_idx = 0, recheck = 200;
    bool verbose = false;
    std::vector<std::string> skips;

    for(int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if(a == "--seed") seed = std::strtoull(val().c_str(), 0, 10);
        else if(a == "--workers") W = std::min<unsigned>(MAXW - 2, std::max(1, std::atoi(val().c_str())));
        else if(a == "--limit") limit = std::atof(val().c_str());
        else if(a == "--min-budget") minbudget = std::atof(val().c_str());
        else if(a == "--recheck") recheck = std::strtoull(val().c_str(), 0, 10);
        else if(a == "--out") out = val();
        else if(a == "--replay-out") replay_out = val();
        else if(a == "--replay") replay = val();
        else if(a == "--verbose") verbose = true;
        else if(a == "--dump") { dump = val(); dump_idx = std::strtoull(val().c_str(), 0, 10); }
        else if(a == "--list") { for(Scenario const& s: scenarios()) std::printf("%s\n", s.name); return 0; }
        else if(a == "--phase")
        {
            std::string v = val(); std::size_t c = v.find(':');
            std::size_t c2 = v.find(':', c + 1);
            phases.push_back(Phase{ v.substr(0, c), std::strtoull(v.c_str() + c + 1, 0, 10), c2 == std::string::npos ? recheck : std::strtoull(v.c_str() + c2 + 1, 0, 10) });
        }
        else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }

    if(!dump.empty())
    {
        Scenario const* sc = find(dump); if(!sc) return 2;
        std::string t = trace_of(*sc, 0, seed, dump_idx);
        std::fputs(t.c_str(), stdout);
        return 0;
    }

    if(!replay.empty())
    {
        FILE* f = std::fopen(replay.c_str(), "r");
        if(!f) { std::fprintf(stderr, "cannot open %s\n", replay.c_str()); return 2; }
        char line[8192]; std::string scen, cls; unsigned long long h = 0; std::vector<std::uint32_t> tape; History hist; bool has_hist = false;
        while(std::fgets(line, sizeof line, f))
        {
            std::string l = line; while(!l.empty() && l.back() == '\n') l.pop_back();
            if(l.compare(0, 9, "scenario ") == 0) scen = l.substr(9);
            else if(l.compare(0, 6, "class ") == 0) cls = l.substr(6);
            else if(l.compare(0, 5, "hash ") == 0) h = std::strtoull(l.c_str() + 5, 0, 16);
            else if(l.compare(0, 8, "history ") == 0)
            {
                unsigned long long n = 0, sd = 0; if(std::sscanf(l.c_str() + 8, "%llu %llu", &n, &sd) != 2) return 2;
                hist.seed = sd; has_hist = true;
                while(n--) { unsigned long long x; if(std::fscanf(f, "%llu\n", &x) != 1) return 2; hist.runs.push_back(x); }
            }
            else if(l.compare(0, 5, "tape ") == 0)
            {
                std::size_t n = std::strtoull(l.c_str() + 5, 0, 10);
                for(std::size_t i = 0; i < n; ++i) { unsigned x; if(std::fscanf(f, "%u", &x) != 1) return 2; tape.push_back(x); }
                break;
            }
        }
        std::fclose(f);
        Scenario const* sc = find(scen); if(!sc) { std::fprintf(stderr, "no scenario %s\n", scen.c_str()); return 2; }
        History const* hp = has_hist ? &hist : 0;
        if(verbose) std::fputs(trace_of(*sc, &tape, 0, 0, hp).c_str(), stdout);
        Outcome o = run_forked(*sc, &tape, 0, 0, !verbose, 0, hp);
        std::printf("replay class=%s hash=%016llx expected class=%s hash=%016llx\nmessage: %s\n", o.cls.c_str(), (unsigned long long)o.hash, cls.c_str(), h, o.msg.c_str());
        if(o.cls.empty()) { std::printf("REPLAY no violation\n"); return 0; }
        if(o.cls == cls && o.hash == h) { std::printf("REPLAY reproduced\n"); return 1; }
        std::printf("REPLAY different\n"); return 3;
    }

    double t0 = wall(), deadline = t0 + limit;
    std::vector<PhaseResult> pr;
    std::string viol_json = "null";
    int rc = 0; std::uint64_t unrep = 0; std::string unrep_txt;

    for(auto const& ph: phases)
    {
        Scenario const* sc = find(ph.first);
        if(!sc) { std::fprintf(stderr, "no scenario %s\n", ph.first.c_str()); return 2; }
        std::uint64_t runs = ph.second;
        std::size_t bytes = (runs + 1) * 8;
        std::uint64_t* hashes = static_cast<std::uint64_t*>(mmap(0, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        double tp = wall();
        std::uint64_t nt0 = G->nontrivial, ex0 = G->executed;
        std::set<std::uint64_t> skip;
        bool violated = false;
        // replays, minimises and reports the violation that the workers found first
        auto settle = [&](unsigned workers, std::uint64_t stride)
        {
            std::uint64_t idx = G->minviol;
            Slot* sl = 0;
            for(unsigned w = 0; w < workers; ++w) if(G->slot[w + 1].dv && G->slot[w + 1].run == idx) sl = &G->slot[w + 1];
            if(!sl) infra("lost violation");
            Outcome o0; o0.cls = sl->cls; o0.msg = sl->msg; o0.hash = sl->hash; o0.tape.assign(sl->tape, sl->tape + sl->tape_len);
            // gate: the seed again, and the tape twice, must give the same violation and the same event hash
            Outcome a = run_forked(*sc, 0, seed, idx, true), b = run_forked(*sc, &o0.tape, 0, 0, true), c = run_forked(*sc, &o0.tape, 0, 0, true);
            History hist; History* hp = 0; hist.seed = seed;
            if(!(a.cls == o0.cls && b.cls == o0.cls && c.cls == o0.cls && a.hash == b.hash && b.hash == c.hash && a.hash == o0.hash))
            {
                // does it need what this process executed before?
                std::vector<std::uint64_t> before;
                for(std::uint64_t j = idx / stride % workers; j * stride < idx; j += workers) if(!skip.count(j * stride)) before.push_back(j * stride);
                for(std::size_t k = 1; !hp && !before.empty(); k *= 8)
                {
                    if(k > before.size()) k = before.size();
                    hist.runs.assign(before.end() - k, before.end());
                    b = run_forked(*sc, &o0.tape, 0, 0, true, 0, &hist);
                    if(!b.cls.empty())
                    {
                        c = run_forked(*sc, &o0.tape, 0, 0, true, 0, &hist);
                        if(c.cls == b.cls && c.hash == b.hash) { o0.cls = b.cls; hp = &hist; }
                    }
                    if(k == before.size()) break;
                }
                double end = wall() + minbudget / 2;
                for(std::size_t n = hp ? (hist.runs.size() + 1) / 2 : 0; n && wall() < end; n = n > 1 ? (n + 1) / 2 : 0)
                    for(std::size_t at = 0; at < hist.runs.size() && wall() < end;)
                    {
                        History cand = hist; cand.runs.erase(cand.runs.begin() + at, cand.runs.begin() + std::min(at + n, cand.runs.size()));
                        Outcome o = run_forked(*sc, &o0.tape, 0, 0, true, 0, &cand);
                        if(o.cls == o0.cls) { hist = cand; b = o; } else at += n;
                    }
            }
            if(!hp && !(a.cls == o0.cls && b.cls == o0.cls && c.cls == o0.cls && a.hash == b.hash && b.hash == c.hash && a.hash == o0.hash))
            {
                ++unrep; skip.insert(idx);
                unrep_txt += "run " + std::to_string(idx) + " of " + sc->name + ": " + o0.cls + " (" + o0.msg + ") then '" + a.cls + "' '" + b.cls + "' '" + c.cls + "'\n";
                return;
            }
            std::uint64_t tries = 0;
            std::vector<std::uint32_t> t = minimise(*sc, o0.tape, o0.cls, minbudget, tries, hp);
            Outcome m1 = run_forked(*sc, &t, 0, 0, true, 0, hp), m2 = run_forked(*sc, &t, 0, 0, true, 0, hp);
            char const* how = "minimised";
            if(!(m1.cls == o0.cls && m2.cls == o0.cls && m1.hash == m2.hash)) { t = o0.tape; m1 = b; how = "original"; }
            if(!replay_out.empty())
            {
                write_replay(replay_out, prop, build, *sc, seed, idx, m1, t, how, hp);
                write_replay(replay_out + ".orig", prop, build, *sc, seed, idx, b, o0.tape, "original", hp);
                std::string tr = trace_of(*sc, &t, 0, 0, hp);
                FILE* f = std::fopen(replay_out.c_str(), "a");
                if(f) { std::fprintf(f, "--- trace\n%s", tr.c_str()); std::fclose(f); }
            }
            viol_json = "{\"scenario\":" + js(sc->name) + ",\"run\":" + std::to_string(idx) + ",\"class\":" + js(m1.cls) + ",\"message\":" + js(m1.msg) +
                ",\"history\":" + std::to_string(hp ? hist.runs.size() : 0) + ",\"tape_original\":" + std::to_string(o0.tape.size()) + ",\"tape_minimised\":" + std::to_string(t.size()) + ",\"minimiser_runs\":" + std::to_string(tries) + "}";
            violated = true; rc = 1;
        };
        for(int attempt = 0; attempt < 8 && !violated; ++attempt)
        {
            G->minviol = ~0ull;
            run_workers(*sc, seed, runs, W, deadline, hashes, skip, 1);
            if(G->minviol == ~0ull) break;
            settle(W, 1);
        }
        PhaseResult r; r.name = sc->name; r.runs = runs; r.executed = G->executed - ex0; r.nontrivial = G->nontrivial - nt0; r.wall = wall() - tp; r.rechecked = 0;
        std::vector<std::uint64_t> v(hashes, hashes + runs);
        v.erase(std::remove(v.begin(), v.end(), 0ull), v.end());
        std::sort(v.begin(), v.end());
        v.erase(std::unique(v.begin(), v.end()), v.end());
        r.distinct = v.size();
        r.distinct_nt = 0;
        for(std::uint64_t x: v) r.distinct_nt += x & 1;
        std::uint64_t recheck = ph.recheck;
        // determinism: repeat a sample of the runs in other processes with another worker count and compare event hashes
        if(!violated && recheck && unrep == 0)
        {
            std::uint64_t stride = std::max<std::uint64_t>(1, runs / std::max<std::uint64_t>(1, std::min<std::uint64_t>(runs, recheck)));
            std::uint64_t* h2 = static_cast<std::uint64_t*>(mmap(0, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
            counting = false; G->minviol = ~0ull;
            unsigned w2 = W > 3 ? 3 : W + 1;
            run_workers(*sc, seed, runs, w2, deadline + 60, h2, skip, stride);
            counting = true;
            if(G->minviol != ~0ull) settle(w2, stride);
            if(violated) { munmap(h2, bytes); munmap(hashes, bytes); pr.push_back(r); break; }
            if(G->minviol != ~0ull) { std::fprintf(stderr, "INFRA: a repeated run violates although the first execution did not (run %llu of %s)\n", (unsigned long long)G->minviol.load(), sc->name); return 2; }
            for(std::uint64_t i = 0; i < runs; ++i) if(h2[i] && hashes[i])
            {
                ++r.rechecked;
                if(h2[i] != hashes[i]) { std::fprintf(stderr, "INFRA: run %llu of %s is not deterministic\n", (unsigned long long)i, sc->name); return 2; }
            }
            munmap(h2, bytes);
        }
        munmap(hashes, bytes);
        pr.push_back(r);
        if(violated) break;
    }

    std::uint64_t states = 0;
    for(std::size_t i = 0; i < COVBITS / 32; ++i) states += __builtin_popcount(G->cov[i].load());

    std::string j = "{\"property\":" + js(prop) + ",\"build\":" + js(build) + ",\"seed\":" + std::to_string(seed) + ",\"phases\":[";
    for(std::size_t i = 0; i < pr.size(); ++i)
    {
        char b[64]; std::snprintf(b, sizeof b, "%.3f", pr[i].wall);
        j += (i ? "," : "") + std::string("{\"scenario\":") + js(pr[i].name) + ",\"planned\":" + std::to_string(pr[i].runs) + ",\"executed\":" + std::to_string(pr[i].executed) +
            ",\"distinct\":" + std::to_string(pr[i].distinct) + ",\"distinct_nontrivial\":" + std::to_string(pr[i].distinct_nt) + ",\"nontrivial\":" + std::to_string(pr[i].nontrivial) + ",\"rechecked\":" + std::to_string(pr[i].rechecked) + ",\"wall_s\":" + b + "}";
    }
    j += "],\"faults\":{";
    bool first = true;
    for(std::uint32_t i = 0; i < G->nnames; ++i) if(G->names[i].kind == 'f') { j += (first ? "" : ",") + js(G->names[i].name) + ":" + std::to_string(G->names[i].count.load()); first = false; }
    j += "},\"probes\":{"; first = true;
    for(std::uint32_t i = 0; i < G->nnames; ++i) if(G->names[i].kind == 'p') { j += (first ? "" : ",") + js(G->names[i].name) + ":" + std::to_string(G->names[i].count.load()); first = false; }
    j += "},\"states\":" + std::to_string(states) + ",\"steps\":" + std::to_string(G->steps.load()) + ",\"sim_ticks\":" + std::to_string(G->simtime.load()) +
        ",\"oracles\":" + std::to_string(G->oracles.load()) + ",\"executed\":" + std::to_string(G->executed.load()) + ",\"unreproducible\":" + std::to_string(unrep) +
        ",\"unreproducible_text\":" + js(unrep_txt) + ",\"violation\":" + viol_json + "}\n";
    if(!out.empty()) { FILE* f = std::fopen(out.c_str(), "w"); if(!f) return 2; std::fputs(j.c_str(), f); std::fclose(f); }
    else std::fputs(j.c_str(), stdout);
    if(rc == 0 && unrep) { std::fprintf(stderr, "INFRA: violations that do not replay:\n%s", unrep_txt.c_str()); return 2; }
    return rc;
}

} // namespace sim
