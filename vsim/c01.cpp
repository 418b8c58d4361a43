// C01: digests depend only on the byte stream, not on how it was delivered.
#include "core.hpp"
#include "algs.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <map>
#include <memory>
#include <csetjmp>
#include <csignal>
#include <sys/mman.h>
#include <unistd.h>

using sim::Sim; using sim::Bytes; using algs::Obj;

namespace
{

// a source buffer of exactly n bytes at a chosen misalignment; destroyed (and overwritten) after the call
struct Source
{
    unsigned char* base; unsigned char* p; std::size_t n;
    Source(Sim& S, unsigned char const* d, std::size_t len): n(len)
    {
        std::size_t mis = S.choose(16);
        base = static_cast<unsigned char*>(std::malloc(mis + n + (n == 0)));
        p = base + mis;
        if(n) std::memcpy(p, d, n);
    }
    ~Source()
    {
        std::memset(p, 0xEE, n);       // the caller reuses the buffer at once
        std::free(base);
    }
};

struct Ctor { int kind; std::uint64_t seed; Bytes key; };

Ctor choose_ctor(Sim& S, ref::Alg a)
{
    Ctor c; c.kind = (int)S.choose(4); c.seed = 0;
    if(c.kind == 1) c.seed = S.edgy64();
    if(c.kind >= 2) c.key = S.data(S.length(std::max<std::size_t>(ref::block_size(a), 8), S.chance(1, 40) ? 9000 : 300));
    return c;
}

void construct(Obj& o, ref::Hash& r, ref::Alg a, Ctor const& c)
{
    switch(c.kind)
    {
    case 0: o.def(a); r = ref::Hash(a); break;
    case 1: o.seed(a, c.seed); r = ref::Hash(a, c.seed); break;
    default:
        {
            // exact-size heap copy of the key, gone right after construction
            std::unique_ptr<unsigned char[]> k(new unsigned char[c.key.size() + 1]);
            if(!c.key.empty()) std::memcpy(k.get(), c.key.data(), c.key.size());
            o.bytes(a, c.key.empty() ? (c.kind == 2 ? nullptr : k.get()) : k.get(), c.key.size());
            std::memset(k.get(), 0xDD, c.key.size() + 1);
            r = ref::Hash(a, c.key.data(), c.key.size());
        }
    }
}

struct Session
{
    ref::Alg a; Obj live; ref::Hash want; Bytes msg;
    std::size_t fed = 0;                  // bytes absorbed by the live object
    std::size_t avail = 0;                // contiguous bytes received so far
    std::map<std::size_t, std::size_t> segs;   // received segments
    Obj ckpt; std::size_t ckpt_at = 0; bool has_ckpt = false;
    Ctor ctor; int mode = 0; std::size_t fixed = 1; bool done = false; bool uch = false;
    int rounds = 0;
};

struct Event { std::uint64_t at, seq; int kind, who; std::size_t off, len; };

} // namespace

SIM_SCENARIO(delivery)
{
    int n = 1 + (int)S.choose(4);
    std::vector<std::unique_ptr<Session>> ss;
    std::vector<Event> q; std::uint64_t seq = 0;
    unsigned dup = S.choose(2) ? (unsigned)S.choose(30) : 0, loss = S.choose(2) ? (unsigned)S.choose(30) : 0, jitter = S.choose(2) ? 1 + (unsigned)S.choose(40) : 0;
    unsigned crash = S.choose(2) ? 1 + (unsigned)S.choose(10) : 0, intr = S.choose(2) ? 1 + (unsigned)S.choose(30) : 0;
    std::size_t mtu = 1 + S.choose(3) * 100 + S.choose(400);
    for(int i = 0; i < n; ++i)
    {
        std::unique_ptr<Session> s(new Session);
        s->a = (ref::Alg)(i == 0 ? S.strat(ref::NALG) : S.choose(ref::NALG));
        s->live.dirty(S.dirt()); s->ckpt.dirty(S.dirt());
        s->ctor = choose_ctor(S, s->a);
        construct(s->live, s->want, s->a, s->ctor);
        s->msg = S.data(S.length(ref::block_size(s->a), S.chance(1, 8) ? 6000 : 700));
        s->want.update(s->msg);
        s->mode = (int)S.choose(5);
        s->fixed = 1 + S.choose(2 * ref::block_size(s->a) + 1);
        S.ev("open session=%d alg=%s ctor=%d keylen=%zu len=%zu mode=%d", i, ref::name(s->a), s->ctor.kind, s->ctor.key.size(), s->msg.size(), s->mode);
        std::size_t off = 0; std::uint64_t t = 1;
        while(off < s->msg.size())
        {
            std::size_t len = std::min(mtu, s->msg.size() - off);
            if(S.chance(1, 6)) len = std::min<std::size_t>(len, 1 + S.choose(8));
            t += 1;
            q.push_back(Event{ t + (jitter ? S.choose(jitter) : 0), seq++, 0, i, off, len });
            if(jitter) S.fault("delay");
            off += len;
        }
        ss.push_back(std::move(s));
    }
    int done = 0, guard = 0;
    for(auto& s: ss) if(s->msg.empty()) { ++done; s->done = true; }
    auto after = [](Event const& x, Event const& y) { return x.at != y.at ? x.at > y.at : x.seq > y.seq; };
    std::make_heap(q.begin(), q.end(), after);
    while(done < n)
    {
        if(q.empty() || ++guard > 20000) S.fail("harness", "transport made no progress");
        std::pop_heap(q.begin(), q.end(), after);
        Event e = q.back(); q.pop_back();
        if(e.at > S.now()) S.now_ = e.at;
        S.step(0);
        Session& s = *ss[e.who];
        if(s.done) continue;
        if(loss && S.choose(100) < loss && guard < 3000)
        {
            S.fault("segment_loss"); S.ev("lost session=%d off=%zu", e.who, e.off);
            e.at += 5; e.seq = seq++; q.push_back(e); std::push_heap(q.begin(), q.end(), after); continue;
        }
        if(dup && S.choose(100) < dup && guard < 3000)
        {
            S.fault("segment_duplicate"); Event d = e; d.at += 1 + S.choose(20); d.seq = seq++;
            q.push_back(d); std::push_heap(q.begin(), q.end(), after);
        }
        if(e.off + e.len <= s.avail) { S.probe("duplicate_discarded"); continue; }
        if(e.off > s.avail) { S.fault("segment_reorder"); }
        std::size_t& l = s.segs[e.off]; if(e.len > l) l = e.len;
        while(!s.segs.empty() && s.segs.begin()->first <= s.avail)
        {
            s.avail = std::max(s.avail, s.segs.begin()->first + s.segs.begin()->second);
            s.segs.erase(s.segs.begin());
        }
        // the reader is woken up: it drains what is available with reads of arbitrary size
        while(s.fed < s.avail)
        {
            if(intr && S.choose(100) < intr)
            {
                S.fault("interrupted_read");
                bool u = S.choose(2);
                switch(S.choose(3))
                {
                case 0: s.live.update(nullptr, 0, u); break;
                case 1: { unsigned char c = 7; s.live.update(&c, 0, u); break; }
                default: s.live.update(s.msg.data() + s.fed, 0, u); break;
                }
                S.ev("eintr session=%d at=%zu", e.who, s.fed);
            }
            if(crash && S.choose(400) < crash)
            {
                S.fault("crash_restart");
                S.ev("crash session=%d at=%zu resume=%zu", e.who, s.fed, s.has_ckpt ? s.ckpt_at : 0);
                s.live.reset(); s.live.dirty(S.dirt());
                if(s.has_ckpt) { s.live.copy(s.ckpt); s.fed = s.ckpt_at; }
                else { ref::Hash dummy; construct(s.live, dummy, s.a, s.ctor); s.fed = 0; }
                continue;
            }
            if(S.chance(1, 12))
            {
                s.ckpt.reset(); s.ckpt.dirty((unsigned char)~S.dirt()); s.ckpt.copy(s.live); s.ckpt_at = s.fed; s.has_ckpt = true;
                S.probe("checkpoint_taken"); S.ev("checkpoint session=%d at=%zu", e.who, s.fed);
            }
            std::size_t rest = s.avail - s.fed, k = rest, blk = ref::block_size(s.a);
            switch(s.mode)
            {
            case 0: k = rest; break;
            case 1: k = 1; break;
            case 2: k = 1 + S.choose(std::min<std::size_t>(rest, 2 * blk + 3)); break;
            case 3: k = s.fixed; break;
            default: { std::size_t r = blk - s.fed % blk; k = r + S.choose(3) ; k = k > 1 ? k - 1 : 1; if(S.choose(2)) k += blk * S.choose(4); break; }
            }
            if(k > rest) k = rest;
            if(k < rest) S.fault("short_read");
            bool u = s.mode == 1 ? ((s.fed >> 2) & 1) : S.choose(2);
            if(u != s.uch) S.probe("overload_switch");
            s.uch = u;
            {
                Source src(S, s.msg.data() + s.fed, k);
                s.live.update(src.p, k, u);
            }
            S.cov(s.a, s.fed % blk, k < 2 * blk ? k : 2 * blk + k % blk);
            if(s.fed % blk && s.fed % blk + k == blk) S.probe("exact_block_fill");
            s.fed += k;
            S.ev("read session=%d n=%zu total=%zu %c", e.who, k, s.fed, u ? 'u' : 'v');
        }
        if(s.fed == s.msg.size()) { s.done = true; ++done; }
    }
    for(int i = 0; i < n; ++i)
    {
        Session& s = *ss[i];
        Bytes got = s.live.result(), want = s.want.result();
        S.oracle();
        S.ev("close session=%d", i);
        if(got != want) S.fail("digest", "session %d %s: got %s, the stream hashes to %s (len %zu, ctor %d, key %zu bytes)", i, ref::name(s.a), sim::hex(got).c_str(), sim::hex(want).c_str(), s.msg.size(), s.ctor.kind, s.ctor.key.size());
        if(s.has_ckpt && S.choose(2))
        {
            // finish the stream a second time from the checkpoint
            s.ckpt.update(s.msg.data() + s.ckpt_at, s.msg.size() - s.ckpt_at, S.choose(2));
            S.oracle();
            if(s.ckpt.result() != want) S.fail("digest-resumed", "session %d %s resumed from %zu of %zu differs", i, ref::name(s.a), s.ckpt_at, s.msg.size());
        }
    }
}

// ---------------------------------------------------------------------------- large pieces
// reads that deliver up to a megabyte at once, sizes around every power of two
static void bulk(Sim& S)
{
    ref::Alg a = (ref::Alg)S.strat(ref::NALG); std::size_t blk = ref::block_size(a);
    Obj o; o.dirty(S.dirt()); Ctor c = choose_ctor(S, a); ref::Hash want; construct(o, want, a, c);
    std::size_t total = 0; int parts = 1 + (int)S.choose(4); std::size_t cap = S.chance(1, 12) ? 1200000 : 70000;
    while(parts--)
    {
        std::size_t n;
        if(S.choose(3) == 2) n = S.choose(2 * blk + 1);
        else { n = (std::size_t)1 << S.range(7, 20); std::size_t d = S.choose(2 * blk + 2); n = n + d > blk ? n + d - blk : 0; }
        if(n > cap) n = cap - S.choose(300);
        Bytes d = S.data(n); bool u = S.choose(2);
        { Source src(S, d.data(), n); o.update(src.p, n, u); }
        want.update(d); total += n;
        S.ev("read %s n=%zu %c", ref::name(a), n, u ? 'u' : 'v'); S.step(); S.cov(2000 + a, (total - n) % blk, n % blk, n >> 10);
        if(S.chance(1, 8)) { Obj t; t.dirty(S.dirt()); t.copy(o); o.reset(); o.dirty(S.dirt()); o.copy(t); S.fault("crash_restart"); }
        if(S.chance(1, 6)) { Bytes g = o.result(), w = want.result(); S.oracle(); if(g != w) S.fail("digest", "%s after %zu bytes in large pieces: got %s, expected %s", ref::name(a), total, sim::hex(g).c_str(), sim::hex(w).c_str()); }
    }
    Bytes g = o.result(), w = want.result(); S.oracle(); S.nontrivial();
    if(g != w) S.fail("digest", "%s after %zu bytes in large pieces: got %s, expected %s", ref::name(a), total, sim::hex(g).c_str(), sim::hex(w).c_str());
}
static sim::Register regbulk("bulk", bulk, 20);

// ---------------------------------------------------------------------------- a source that vanishes
// One huge piece of a mapped file that turns out to be truncated: its pages beyond the first are gone. A call that comes back
// without having touched them cannot have absorbed the piece. This decides the handling of lengths beyond 2^31 and 2^32 at no cost.
namespace
{
sigjmp_buf gone; volatile sig_atomic_t armed; unsigned char* volatile vanish_lo; unsigned char* volatile vanish_hi;
void on_fault(int sig, siginfo_t* si, void*)
{
    unsigned char* a = static_cast<unsigned char*>(si->si_addr);
    if(armed && a >= vanish_lo && a < vanish_hi) { armed = 0; siglongjmp(gone, 1); }
    signal(sig, SIG_DFL);       // the instruction runs again and ends the process
}
unsigned char* thin; std::size_t const THIN = (std::size_t)1 << 42;
void prepare_thin()
{
    thin = static_cast<unsigned char*>(mmap(0, THIN, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if(thin == MAP_FAILED || mprotect(thin, 4096, PROT_READ | PROT_WRITE)) _exit(70);
    std::memset(thin, 0x41, 4096); if(mprotect(thin, 4096, PROT_READ)) _exit(70);
}
// returns true when the call went for the pages that are gone
template<class F> bool __attribute__((noinline)) vanishing(unsigned char* lo, F f)
{
    struct sigaction sa, old; std::memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_fault; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSEGV, &sa, &old);
    bool r;
    vanish_lo = lo; vanish_hi = thin + THIN;
    if(sigsetjmp(gone, 1) == 0) { armed = 1; f(); armed = 0; r = false; } else r = true;
    sigaction(SIGSEGV, &old, 0);
    return r;
}
}
static void vanish(Sim& S)
{
    ref::Alg a = (ref::Alg)S.strat(ref::NALG); std::size_t blk = ref::block_size(a);
    std::size_t edge; switch(S.choose(4)) { case 0: edge = (std::size_t)1 << 32; break; case 1: edge = (std::size_t)1 << 31; break; case 2: edge = (std::size_t)1 << S.range(13, 41); break; default: edge = S.range(1, 9) << 32; }
    std::size_t n = edge + S.choose(3 * blk), off = S.choose(4096 - 2 * blk); if(S.choose(4) == 3) n -= std::min<std::size_t>(n, S.choose(3 * blk));
    if(n < 8192) n += 8192;
    Obj o; o.dirty(S.dirt()); unsigned char* p = thin + off; int op = (int)S.choose(3);
    S.fault("source_vanishes"); S.nontrivial();
    bool touched;
    if(op == 2) { S.ev("key %s n=%zu", ref::name(a), n); touched = vanishing(thin + 4096, [&] { o.bytes(a, p, n); }); }
    else
    {
        o.seed(a, S.choose(3)); std::size_t pre = S.choose(2 * blk); if(pre) o.update(thin, pre, true);
        S.ev("update %s after %zu n=%zu %c", ref::name(a), pre, n, op ? 'u' : 'v'); touched = vanishing(thin + 4096, [&] { o.update(p, n, op == 1); });
    }
    S.oracle(); S.cov(3000 + a, op, n >> 31, n % blk);
    if(!touched) S.fail("unread", "%s: %s of %zu bytes returned without reading beyond the first %zu", ref::name(a), op == 2 ? "a byte seed" : op ? "update(unsigned char const*)" : "update(void const*)", n, 4096 - off);
}
static sim::Register regvanish("vanish", vanish, 30, prepare_thin);

// ---------------------------------------------------------------------------- streams crossing 2^29 and 2^32 bytes

namespace
{
std::size_t const PERIOD = 1u << 21;
std::uint64_t const MAPPED = (1ull << 32) + (1ull << 22);
unsigned char* region;
struct Saved { int alg; std::uint64_t len; std::string st; };
std::vector<Saved> saved;

void pattern(unsigned char* p)
{
    std::uint64_t x = 0x243F6A8885A308D3ull;
    for(std::size_t i = 0; i < PERIOD; ++i) { x = x * 6364136223846793005ull + 1442695040888963407ull; p[i] = (unsigned char)(x >> 56); }
}

std::string unhex(char const* s)
{
    std::string r; auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for(; s[0] && s[1]; s += 2) r += (char)(v(s[0]) * 16 + v(s[1]));
    return r;
}

void prepare()
{
    int fd = memfd_create("vsim", 0);
    if(fd < 0 || ftruncate(fd, PERIOD) != 0) _exit(70);
    unsigned char* w = static_cast<unsigned char*>(mmap(0, PERIOD, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    pattern(w); munmap(w, PERIOD);
    region = static_cast<unsigned char*>(mmap(0, MAPPED, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if(region == MAP_FAILED) _exit(70);
    for(std::uint64_t o = 0; o < MAPPED; o += PERIOD)
        if(mmap(region + o, PERIOD, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) _exit(70);
    close(fd);
    char const* path = std::getenv("VSIM_LONGHAUL");
    FILE* f = std::fopen(path ? path : "longhaul.txt", "r");
    if(!f) _exit(70);
    static char nm[64], hx[8192]; unsigned long long len;
    while(std::fscanf(f, "%63s %llu %8191s", nm, &len, hx) == 3)
        for(int a = 0; a < ref::NALG; ++a) if(std::strcmp(nm, ref::name((ref::Alg)a)) == 0) saved.push_back(Saved{ a, len, unhex(hx) });
    std::fclose(f);
}

Saved const* find(int a, std::uint64_t len)
{
    for(Saved const& s: saved) if(s.alg == a && s.len == len) return &s;
    return 0;
}

void long_haul(Sim& S, std::uint64_t base, ref::Alg a)
{
    // the reference joins at `base`, from a committed state computed once by the reference implementation
    Saved const* sv = find(a, base);
    if(!sv) { std::fprintf(stderr, "no saved state for %s %llu\n", ref::name(a), (unsigned long long)base); _exit(70); }
    ref::Hash want(a); want.load(sv->st);
    Obj o; o.dirty(S.dirt()); o.def(a);
    std::uint64_t pos = 0;
    std::size_t blk = ref::block_size(a);
    int mode = base >> 32 ? (S.choose(8) == 7 ? 1 + (int)S.choose(2) : 0) : (int)S.choose(3);
    S.ev("stream alg=%s base=%llu mode=%d", ref::name(a), (unsigned long long)base, mode);
    if(mode == 0)
    {
        // one gigantic update after a short prefix
        std::size_t pre = S.choose(2 * blk + 1);
        o.update(region, pre, S.choose(2)); pos = pre;
        bool u = S.choose(2);
        o.update(region + pos, base - pos, u); S.probe("giant_update");
        pos = base;
    }
    else
    {
        Obj saved_at; 
        while(pos < base)
        {
            std::uint64_t k = mode == 1 ? (1ull << 20) + S.choose(1 << 22) : (1ull << 26) + S.choose(1u << 30);
            if(k > base - pos) k = base - pos;
            o.update(region + pos % PERIOD, k, S.choose(2));      // the pattern is periodic, so any window of it is contiguous
            pos += k; S.fault("short_read");
            if(S.chance(1, 16)) { saved_at.copy(o); o.reset(); o.dirty(S.dirt()); o.copy(saved_at); S.fault("crash_restart"); }
        }
    }
    S.step(base);
    // many continuations from here, each on a copy
    int conts = 24;
    for(int c = 0; c < conts; ++c)
    {
        Obj x; x.dirty(S.dirt()); x.copy(o); ref::Hash w(want); std::uint64_t p = pos; std::uint64_t goal = pos + S.choose(9000);
        if(S.choose(2)) goal = pos + 4096 - 64 + S.choose(200);       // around the power of two
        int results = 1 + (int)S.choose(2);
        while(p < goal)
        {
            std::size_t k = 1 + S.choose(std::min<std::uint64_t>(goal - p, S.choose(2) ? 3 * blk : 4096));
            x.update(region + p % PERIOD, k, S.choose(2)); w.update(region + p % PERIOD, k); p += k;
        }
        for(int r = 0; r < results; ++r)
        {
            Bytes g = x.result(), e = w.result(); S.oracle();
            S.ev("continuation=%d to=%llu result=%d", c, (unsigned long long)p, r);
            if(g != e) S.fail("digest-long", "%s after %llu bytes (result #%d): got %s, expected %s", ref::name(a), (unsigned long long)p, r, sim::hex(g).c_str(), sim::hex(e).c_str());
            S.cov(1000 + a, base >> 20, p % blk, r);
            std::size_t k = S.choose(blk + 2); x.update(region, k, false); w.update(region, k); p += k;
        }
    }
    S.nontrivial();
}
} // namespace

static void longhaul29(Sim& S) { long_haul(S, (1ull << 29) - 4096, (ref::Alg)S.strat(ref::NALG)); }
static sim::Register reg29("longhaul29", longhaul29, 120, prepare);
// plain algorithms first: HMAC shares their code
static void longhaul32(Sim& S)
{
    static int const order[ref::NALG] = { 14,6,7,8,10,15,28,26,4,5,0,1,2,3,9,11,12,13,27, 16,17,18,19,20,21,22,23,24,25 };
    ref::Alg a = (ref::Alg)order[S.strat(ref::NALG)];
    long_haul(S, (1ull << 32) + (S.choose(2) ? 4096 : -4096), a);
}
static sim::Register reg32("longhaul32", longhaul32, 400, prepare);

int main(int argc, char** argv)
{
    if(argc > 1 && std::strcmp(argv[1], "--gen-longhaul") == 0)
    {
        // computes the reference states for one algorithm
        prepare();
        ref::Alg a = (ref::Alg)std::atoi(argv[2]);
        std::uint64_t const lens[3] = { (1ull << 29) - 4096, (1ull << 32) - 4096, (1ull << 32) + 4096 };
        ref::Hash h(a); std::uint64_t pos = 0;
        for(std::uint64_t l: lens) { h.update(region + pos, l - pos); pos = l; std::printf("%s %llu %s\n", ref::name(a), (unsigned long long)l, sim::hex(h.save().data(), h.save().size()).c_str()); std::fflush(stdout); }
        return 0;
    }
    return sim::main_(argc, argv, "C01", BUILD_NAME);
}
