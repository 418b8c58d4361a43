// C09: a fleet of differently built nodes executes the same programs.
#include "core.hpp"
#include "ref.hpp"
#include "c09_prog.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <poll.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

using sim::Sim; using sim::Bytes;

namespace
{
// ---------------------------------------------------------------- program generator
struct Gen
{
    virtual std::uint64_t choose(std::uint64_t n) = 0;
    virtual void bytes(Bytes& b, std::size_t n) = 0;
    virtual ~Gen() {}
};
struct SimGen: Gen { Sim& S; explicit SimGen(Sim& s): S(s) {} std::uint64_t choose(std::uint64_t n) override { return S.choose(n); } void bytes(Bytes& b, std::size_t n) override { Bytes d = S.data(n); b.insert(b.end(), d.begin(), d.end()); } };
struct RngGen: Gen
{
    sim::Rng r; explicit RngGen(std::uint64_t s): r(s) {}
    std::uint64_t choose(std::uint64_t n) override { return r.next() % n; }
    void bytes(Bytes& b, std::size_t n) override { for(std::size_t i = 0; i < n; ++i) b.push_back((unsigned char)(r.next() >> 24)); }
};
std::size_t blk(int a) { return ref::block_size((ref::Alg)a); }
void len16(Bytes& b, std::size_t n) { b.push_back((unsigned char)n); b.push_back((unsigned char)(n >> 8)); }
std::size_t len(Gen& g, std::size_t block, std::size_t max)
{
    std::size_t n;
    switch(g.choose(5)) { case 0: n = g.choose(10); break; case 1: n = block; break; case 2: n = block * g.choose(4) + g.choose(3); break; case 3: n = block > 9 ? block - 1 - g.choose(9) : g.choose(9); break; default: n = g.choose(max + 1); }
    return std::min(n, max);
}
void begin(Gen& g, Bytes& p, int alg, std::size_t max)
{
    p.push_back((unsigned char)alg);
    int k = (int)g.choose(3); p.push_back((unsigned char)k);
    if(k == 1) { if(g.choose(4) == 0) p.insert(p.end(), 8, 0); else g.bytes(p, 8); }
    if(k == 2) { std::size_t n = g.choose(3) ? g.choose(40) : len(g, blk(alg), max); len16(p, n); g.bytes(p, n); }
}
// the bytes a value is made from; reading past them gives zeros
void value(Gen& g, Bytes& p, std::size_t max)
{
    Bytes v; std::size_t n = g.choose(max + 1); g.bytes(v, n);
    if(g.choose(3) == 0) for(std::size_t k = g.choose(12); k; --k) if(n) v[g.choose(n)] = (unsigned char)("\x00\x80\xff\x7f\x01\x05\x83\x03"[g.choose(8)]);
    if(n && g.choose(2)) v[0] = (unsigned char)g.choose(9);          // short sequences
    len16(p, n); p.insert(p.end(), v.begin(), v.end());
}
// one more operation; returns its code
int extend(Gen& g, Bytes& p, int alg, std::size_t max, bool cx, bool described, bool neutral)
{
    auto flavor = [&]{ return (unsigned char)(neutral ? 1 + g.choose(prog::FLAVORS - 1) : g.choose(prog::FLAVORS)); };
    switch(g.choose(cx ? 11 : 15))
    {
    default: { int op = g.choose(2) ? prog::UPDATE_V : prog::UPDATE_U; if(cx) op = prog::UPDATE_U; p.push_back((unsigned char)op); std::size_t n = len(g, blk(alg), max); len16(p, n); g.bytes(p, n); return op; }
    case 4: p.push_back(prog::RESULT); return prog::RESULT;
    case 5: p.push_back(prog::TEXT); return prog::TEXT;
    case 6: p.push_back(prog::COPY); return prog::COPY;
    case 7: case 8: case 11: case 12:
        {
            int t = (int)g.choose(cx ? (int)prog::T_CX20_END : (int)prog::T_RT_END);
            if(!described) { if(t >= prog::T_CX11_END && t < prog::T_CX14_END) t = (int)g.choose(prog::T_CX11_END); if(t >= prog::T_RT11_END) t = prog::T_VEC_INT; }
            int op = (alg == 1 || alg == 5 || (alg == 8 && !cx)) && g.choose(2) ? prog::APPEND_HASH : prog::APPEND_MSG;
            p.push_back((unsigned char)op); p.push_back(flavor()); p.push_back((unsigned char)t);
            value(g, p, t >= prog::T_CX14_END ? 160 : 30); return op;
        }
    case 9: case 10: p.push_back(prog::RANGE_MSG); p.push_back(flavor()); p.push_back((unsigned char)g.choose(prog::R_END)); value(g, p, 85); return prog::RANGE_MSG;
    case 14:
        {
            std::size_t n; switch(g.choose(40)) { case 0: n = 65536 * (1 + g.choose(2)) + g.choose(3); break; case 1: n = g.choose(100000); break; default: n = blk(alg) * g.choose(40) + g.choose(9); break; }
            p.push_back(prog::BULK); p.push_back((unsigned char)n); p.push_back((unsigned char)(n >> 8)); p.push_back((unsigned char)(n >> 16)); p.push_back((unsigned char)g.choose(256)); return prog::BULK;
        }
    case 13: p.push_back(prog::INTEGRAL); return prog::INTEGRAL;
    }
}

// ---------------------------------------------------------------- the fleet
struct Node { std::string name; bool described, foreign; long (*run)(unsigned char const*, unsigned long, unsigned char*, unsigned long); std::string exe; };
struct Table
{
    std::string name; std::size_t count; long (*get_)(unsigned long, unsigned char*, unsigned long); unsigned char const* (*program)(unsigned long, unsigned long*);
    Bytes blob;                                                     // foreign targets: flat records instead of functions
    long get(unsigned long k, unsigned char* o, unsigned long m) const
    {
        if(get_) return get_(k, o, m);
        std::size_t rec = blob.size() / count; unsigned char const* q = &blob[k * rec];
        if(!q[0]) return -1;
        unsigned long n = q[2] | q[3] << 8; if(q[1] || n > m || n + 4 > rec) return -2;
        std::memcpy(o, q + 4, n); return (long)n;
    }
};
std::vector<Node> nodes; std::vector<Table> tables; std::size_t native;      // the nodes of the other byte order come last

void prepare()
{
    char const* path = std::getenv("VSIM_FLEET");
    FILE* f = path ? std::fopen(path, "r") : 0; if(!f) { std::fprintf(stderr, "no fleet\n"); _exit(70); }
    char kind[8], so[3000];
    while(std::fscanf(f, "%7s %2999s", kind, so) == 2)
    {
        if(kind[0] == 'B')
        {
            char nm[200]; if(std::fscanf(f, "%199s", nm) != 1 || tables.empty()) _exit(70);
            Table t; t.name = nm; t.count = tables[0].count; t.get_ = 0; t.program = tables[0].program;
            FILE* g = std::fopen(so, "rb"); if(!g) _exit(70); unsigned char buf[4096]; std::size_t n; while((n = std::fread(buf, 1, sizeof buf, g)) > 0) t.blob.insert(t.blob.end(), buf, buf + n); std::fclose(g);
            if(t.blob.empty() || t.blob.size() % t.count) { std::fprintf(stderr, "%s: %zu bytes for %zu programs\n", nm, t.blob.size(), t.count); _exit(70); }
            tables.push_back(t); continue;
        }
        if(kind[0] == 'X')
        {
            char nm[200]; if(std::fscanf(f, "%199s", nm) != 1) _exit(70);
            Node n; n.name = nm; n.described = n.foreign = true; n.run = 0; n.exe = so; nodes.push_back(n); continue;
        }
        void* h = dlopen(so, RTLD_NOW | RTLD_LOCAL); if(!h) { std::fprintf(stderr, "%s\n", dlerror()); _exit(70); }
        std::string nm = reinterpret_cast<char const* (*)()>(dlsym(h, "vsim_node_name"))();
        if(kind[0] == 'R' || kind[0] == 'E')
        {
            Node n; n.name = nm; n.foreign = kind[0] == 'E'; n.described = reinterpret_cast<int (*)()>(dlsym(h, "vsim_node_types"))() >= 14;
            n.run = reinterpret_cast<decltype(n.run)>(dlsym(h, "vsim_node_run")); nodes.push_back(n);
        }
        else
        {
            Table t; t.name = nm; t.count = reinterpret_cast<unsigned long (*)()>(dlsym(h, "vsim_ct_count"))();
            t.get_ = reinterpret_cast<decltype(t.get_)>(dlsym(h, "vsim_ct_get")); t.program = reinterpret_cast<decltype(t.program)>(dlsym(h, "vsim_ct_program")); tables.push_back(t);
        }
    }
    std::fclose(f);
    native = nodes.size(); while(native && nodes[native - 1].foreign) --native;
    if(native < 2 || tables.empty()) _exit(70);
}

unsigned char obuf[60000];
// a node that is a process of its own: a pure function of the request, so nothing about it is left to the host's scheduler
struct Peer { pid_t owner = 0, pid = 0; int to = -1, from = -1; };
std::map<std::string, Peer> peers;
bool io(int fd, bool in, void* b, std::size_t n)
{
    char* p = static_cast<char*>(b);
    while(n)
    {
        if(in) { pollfd q = { fd, POLLIN, 0 }; int r = poll(&q, 1, 400000); if(r < 0 && errno == EINTR) continue; if(r <= 0) return false; }
        ssize_t k = in ? read(fd, p, n) : write(fd, p, n); if(k < 0 && errno == EINTR) continue; if(k <= 0) return false; p += k; n -= k;
    }
    return true;
}
long request(Sim& S, Node const& n, Bytes const& p, std::size_t off)
{
    Peer& e = peers[n.exe];
    if(e.owner != getpid())
    {
        int a[2], b[2]; if(pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) _exit(70);
        signal(SIGPIPE, SIG_IGN);
        pid_t me = getpid(); e.pid = fork(); if(e.pid < 0) _exit(70);
        if(e.pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); if(getppid() != me) _exit(0); dup2(a[0], 0); dup2(b[1], 1); int z = open("/dev/null", O_WRONLY); dup2(z, 2); execl(n.exe.c_str(), n.exe.c_str(), (char*)0); _exit(127); }
        close(a[0]); close(b[1]); e.to = a[1]; e.from = b[0]; e.owner = me;
    }
    std::uint32_t k = (std::uint32_t)(p.size() - off); std::int32_t r = 0;
    bool ok = io(e.to, false, &k, 4) && io(e.to, false, const_cast<unsigned char*>(p.data()) + off, k) && io(e.from, true, &r, 4) && (r <= 0 || (r <= (int)sizeof obuf && io(e.from, true, obuf, (std::size_t)r)));
    if(!ok)
    {
        kill(e.pid, SIGKILL); int st = 0; waitpid(e.pid, &st, 0); close(e.to); close(e.from); e = Peer();
        S.fail("node-crash", "node %s ends while it executes the program %s", n.name.c_str(), sim::hex(p).substr(0, 1500).c_str());
    }
    return r;
}
// false: not in this node's repertoire
bool execute(Sim& S, Node const& n, Bytes const& p, Bytes& out)
{
    // the request arrives at any alignment
    Bytes q(S.choose(8)); std::size_t off = q.size(); q.insert(q.end(), p.begin(), p.end()); q.push_back(prog::END);
    long r = n.run ? n.run(q.data() + off, q.size() - off, obuf, sizeof obuf) : request(S, n, q, off); S.step();
    if(r == -1 && n.foreign) { S.probe("not_portable"); return false; }
    if(r < 0) { std::fprintf(stderr, "node %s: %ld for %s\n", n.name.c_str(), r, sim::hex(p).c_str()); _exit(70); }
    out.assign(obuf, obuf + r); if(n.foreign) S.fault(n.run ? "big_endian_node" : "32_bit_node"); return true;
}
void differ(Sim& S, char const* cls, std::string const& a, Bytes const& x, std::string const& b, Bytes const& y, Bytes const& p)
{
    std::size_t i = 0; while(i < x.size() && i < y.size() && x[i] == y[i]) ++i;
    auto cut = [&](Bytes const& z) { std::size_t s = i < 8 ? 0 : i - 8; return sim::hex(z.data() + s, std::min<std::size_t>(z.size() - s, 48)); };
    S.fail(cls, "%s answers %s... and %s answers %s... (from byte %zu) for the program %s", a.c_str(), cut(x).c_str(), b.c_str(), cut(y).c_str(), i < 8 ? (std::size_t)0 : i - 8, sim::hex(p).substr(0, 1500).c_str());
}
} // namespace

static void fleet(Sim& S)
{
    SimGen g(S);
    int alg = (int)S.strat(ref::NALG); Bytes p; begin(g, p, alg, 400);
    std::size_t R = 2 + S.choose(3);
    struct Rep { std::size_t node; Bytes out; std::size_t at; }; std::vector<Rep> reps;
    // a session without native orders and legacy algorithms may run on machines of the other byte order, too
    bool neutral = alg < prog::ALG_CX && native < nodes.size() && S.chance(2, 3);
    auto pick = [&]() -> std::size_t { return neutral && S.chance(1, 4) ? native + S.choose(nodes.size() - native) : S.choose(native); };
    for(std::size_t i = 0; i < R; ++i) reps.push_back(Rep{ pick(), Bytes(), 0 });
    std::vector<Bytes> answers; std::vector<std::string> by;          // the first answer for every prefix of the log
    std::vector<Bytes> prefixes;
    ref::Hash h; bool pure = true;
    { int k = p[1]; if(k == 0) h = ref::Hash((ref::Alg)alg); else if(k == 1) { std::uint64_t s; std::memcpy(&s, &p[2], 8); h = ref::Hash((ref::Alg)alg, s); } else h = ref::Hash((ref::Alg)alg, &p[0] + 4, p.size() - 4); }
    bool described = S.choose(3) != 0;
    S.ev("session alg=%s seed=%d replicas=%zu", ref::name((ref::Alg)alg), p[1], R);
    std::size_t steps = 1 + S.choose(10);
    for(std::size_t s = 0; s <= steps; ++s)
    {
        bool last = s == steps; int op = -1; Bytes want; bool known = false;
        std::size_t before = p.size();
        if(!last) op = extend(g, p, alg, 700, false, described, neutral); else { p.push_back(prog::TEXT); op = prog::TEXT; }
        if(pure)
        {
            if(op == prog::UPDATE_U || op == prog::UPDATE_V) { if(p.size() > before + 3) h.update(&p[before + 3], p.size() - before - 3); }
            else if(op == prog::BULK)
            {
                std::size_t n = p[before + 1] | p[before + 2] << 8 | (std::size_t)p[before + 3] << 16; std::uint32_t x = (std::uint32_t)p[before + 4] * 2654435761u + 1; Bytes b(n);
                for(auto& c: b) { x = x * 1664525u + 1013904223u; c = (unsigned char)(x >> 24); }
                if(n) h.update(b.data(), n);
            }
            else if(op == prog::RESULT) { want = h.result(); known = true; }
            else if(op == prog::TEXT || op == prog::INTEGRAL) h.result();
            else if(op == prog::APPEND_HASH) pure = false;
        }
        prefixes.push_back(p); answers.emplace_back(); by.emplace_back();
        for(std::size_t i = 0; i < R; ++i)
        {
            Rep& r = reps[i];
            if(!last && S.chance(1, 5)) { S.fault("message_loss"); continue; }                     // catches up later
            if(S.chance(1, 5)) { r.node = pick(); S.fault("upgrade_restart"); }      // comes back as another build and replays the log
            Node const* n = &nodes[r.node];
            if(described && !n->described) { r.node = (r.node + 1) % native; while(!nodes[r.node].described) r.node = (r.node + 1) % native; n = &nodes[r.node]; }
            std::size_t times = S.chance(1, 12) ? 2 : 1; if(times == 2) S.fault("message_duplication");
            while(times--)
            {
                Bytes o; if(!execute(S, *n, p, o)) break;
                S.oracle();
                if(by[s].empty()) { by[s] = n->name; answers[s] = o; S.ev("step %zu op=%d replica=%zu node=%s out=%016llx/%zu", s, op, i, n->name.c_str(), (unsigned long long)sim::fnv(o.data(), o.size()), o.size()); }
                else if(o != answers[s]) differ(S, "builds-differ", by[s], answers[s], n->name, o, p);
                // the answer must extend the answer to the earlier request
                if(s && !by[s - 1].empty() && (o.size() < answers[s - 1].size() || !std::equal(answers[s - 1].begin(), answers[s - 1].end(), o.begin()))) differ(S, "builds-differ", by[s - 1], answers[s - 1], n->name, o, p);
                if(known && (o.size() < want.size() || !std::equal(want.begin(), want.end(), o.end() - want.size()))) S.fail("digest", "%s: node %s answers %s, expected %s for %s", ref::name((ref::Alg)alg), n->name.c_str(), sim::hex(o).c_str(), sim::hex(want).c_str(), sim::hex(p).substr(0, 1500).c_str());
                S.cov(r.node, alg, op, op == prog::APPEND_MSG || op == prog::RANGE_MSG || op == prog::APPEND_HASH ? p[before + 2] * 8 + p[before + 1] : 0);
            }
        }
    }
    S.nontrivial();
}
static sim::Register reg_fleet("fleet", fleet, 20, prepare);

// the native flavor is the one of the machine's byte order
static void native_order(Sim& S)
{
    SimGen g(S);
    int alg = (int)S.strat(prog::ALG_CX); Bytes p; begin(g, p, alg, 100);
    Node const& n = nodes[S.choose(2) && native < nodes.size() ? native + S.choose(nodes.size() - native) : S.choose(native)]; Bytes q = p;
    std::size_t steps = 1 + S.choose(4);
    for(std::size_t s = 0; s < steps; ++s)
    {
        std::size_t at = p.size(); int op = extend(g, p, alg, 200, false, n.described, false); q.insert(q.end(), p.begin() + at, p.end());
        if(op == prog::APPEND_HASH || op == prog::APPEND_MSG || op == prog::RANGE_MSG) { p[at + 1] = 0; q[at + 1] = n.foreign && n.run ? 2 : 1; S.cov(777, n.foreign, op, p[at + 2]); S.nontrivial(); }
    }
    p.push_back(prog::TEXT); q.push_back(prog::TEXT);
    Bytes a, b; if(n.foreign && !n.run) { S.probe("little_endian"); }
    S.ev("native order on %s: alg=%s, %zu bytes", n.name.c_str(), ref::name((ref::Alg)alg), p.size()); S.oracle();
    if(execute(S, n, p, a) && execute(S, n, q, b) && a != b) differ(S, "native-order", n.name + " (default_flavor)", a, n.name + (n.foreign && n.run ? " (big_endian_flavor)" : " (little_endian_flavor)"), b, p);
}
static sim::Register reg_native("native_order", native_order, 20, prepare);

// streams of more than 2^32 bytes on a machine whose size_t has 32 bits; the reference joins near the end (longhaul.txt)
static void haul32(Sim& S)
{
    static int const order[prog::ALG_CX] = { 2, 3, 4, 5, 6, 7, 8, 14, 0, 1, 15, 10, 9, 11, 12, 13, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25 };
    int alg = order[S.strat(prog::ALG_CX)]; std::uint64_t base = (1ull << 32) - 4096;
    std::vector<Node const*> narrow; for(auto& x: nodes) if(!x.run) narrow.push_back(&x);
    Node const* n = narrow.empty() ? 0 : narrow[S.choose(narrow.size())];
    if(!n) { S.probe("no_32_bit_node"); return; }
    std::string st; bool found = false;
    {
        char const* path = std::getenv("VSIM_LONGHAUL"); FILE* f = std::fopen(path ? path : "longhaul.txt", "r"); if(!f) _exit(70);
        static char nm[64], hx[8192]; unsigned long long len;
        while(std::fscanf(f, "%63s %llu %8191s", nm, &len, hx) == 3) if(len == base && std::strcmp(nm, ref::name((ref::Alg)alg)) == 0)
        { found = true; auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }; for(char const* s = hx; s[0] && s[1]; s += 2) st += (char)(v(s[0]) * 16 + v(s[1])); }
        std::fclose(f); if(!found) _exit(70);
    }
    ref::Hash h((ref::Alg)alg); h.load(st);
    Bytes p; p.push_back((unsigned char)alg); p.push_back(0); p.push_back(prog::HAUL);
    for(int k = 0; k < 8; ++k) p.push_back((unsigned char)(base >> (8 * k)));
    std::uint32_t piece = S.choose(2) ? 1u << 21 : 4096 + (std::uint32_t)S.choose(1 << 21); for(int k = 0; k < 4; ++k) p.push_back((unsigned char)(piece >> (8 * k)));
    std::size_t tail = S.choose(5) ? 4096 + S.choose(16) : S.choose(9000); Bytes d = S.data(tail);
    if(tail) { p.push_back(prog::UPDATE_U); len16(p, tail); p.insert(p.end(), d.begin(), d.end()); h.update(d.data(), tail); }
    p.push_back(prog::RESULT); p.push_back(prog::RESULT);
    Bytes want = h.result(), w2 = h.result(), got; want.insert(want.end(), w2.begin(), w2.end()); S.oracle();
    S.ev("haul alg=%s total=%llu piece=%u", ref::name((ref::Alg)alg), (unsigned long long)(base + tail), piece);
    if(!execute(S, *n, p, got)) return;
    if(got != want) S.fail("digest", "%s of %llu bytes: node %s answers %s, expected %s", ref::name((ref::Alg)alg), (unsigned long long)(base + tail), n->name.c_str(), sim::hex(got).c_str(), sim::hex(want).c_str());
    S.cov(888, alg, tail); S.nontrivial();
}
static sim::Register reg_haul("haul32", haul32, 400, prepare);

// the nodes whose answers were computed by the compiler
bool neutral(std::size_t k) { return k % 3 != 0; }
static void constants(Sim& S)
{
    std::size_t k = S.strat(tables[0].count); unsigned long n = 0;
    unsigned char const* q = tables[0].program(k, &n); Bytes p(q, q + n);
    S.ev("program %zu alg=%s bytes=%lu", k, ref::name((ref::Alg)p[0]), n);
    std::string by; Bytes first;
    auto take = [&](std::string const& nm, Bytes const& o) { S.oracle(); if(by.empty()) { by = nm; first = o; S.ev("first %s out=%016llx/%zu", nm.c_str(), (unsigned long long)sim::fnv(o.data(), o.size()), o.size()); } else if(o != first) differ(S, "constant-evaluation-differs", by, first, nm, o, p); };
    std::size_t R = 2 + S.choose(4), supported = 0;
    for(std::size_t i = 0; i < R; ++i) { Node const* x = &nodes[S.choose(neutral(k) ? nodes.size() : native)]; Bytes o; if(!x->described) { S.probe("node_without_described_classes"); for(auto& y: nodes) if(y.described) { x = &y; break; } } if(execute(S, *x, p, o)) take(x->name, o); }
    for(auto& t: tables)
    {
        long r = t.get(k, obuf, sizeof obuf);
        if(r == -1) { S.probe("not_constant_in_this_standard"); continue; }
        if(r < 0) { std::fprintf(stderr, "table overflow\n"); _exit(70); }
        ++supported; take(t.name, Bytes(obuf, obuf + r)); S.fault(t.get_ ? "compile_time_node" : "foreign_node");
    }
    S.cov(999, k, supported); S.nontrivial();
}
static sim::Register reg_const("constants", constants, 20, prepare);

static int gen_programs(std::uint64_t seed, std::size_t count)
{
    RngGen g(seed * 7919 + 17);
    std::printf("#include \"c09_node.hpp\"\n#include <cstring>\n#ifndef VSIM_CONST\n#define VSIM_CONST constexpr\n#endif\nnamespace {\nconstexpr node::Out go(unsigned char const* p, std::size_t n) { node::Out o; o.ok = node::run(p, n, o); return o; }\n"
        "#if defined(VSIM_FLAT)\nstruct Flat { unsigned char ok, over, n[2], b[OUTMAX]; };\nconstexpr Flat flat(node::Out const& o) { Flat f = {}; f.ok = o.ok; f.over = o.over; f.n[0] = (unsigned char)o.n; f.n[1] = (unsigned char)(o.n >> 8); for(std::size_t k = 0; k < o.n; ++k) f.b[k] = o.b[k]; return f; }\n"
        "# define VSIM_RES(k) __attribute__((section(\"vsimct\"), used)) VSIM_CONST Flat r##k = flat(go(p##k, sizeof p##k))\n#else\n# define VSIM_RES(k) VSIM_CONST node::Out r##k = go(p##k, sizeof p##k)\n#endif\n");
    for(std::size_t k = 0; k < count; ++k)
    {
        int alg = k < 2 * prog::ALG_CX ? (int)(k % prog::ALG_CX) : (int)g.choose(prog::ALG_CX);
        Bytes p; begin(g, p, alg, 150);
        std::size_t n = 1 + g.choose(5);
        for(std::size_t i = 0; i < n; ++i) extend(g, p, alg, 150, true, true, neutral(k));
        p.push_back(g.choose(3) ? prog::RESULT : prog::TEXT);
        if(g.choose(3) == 0) p.push_back(prog::RESULT);
        std::printf("constexpr unsigned char p%zu[] = {", k);
        for(unsigned char c: p) std::printf("%u,", c);
        std::printf("0};\nVSIM_RES(%zu);\n", k);
    }
    std::printf("#if !defined(VSIM_FLAT)\n");
    std::printf("struct E { unsigned char const* p; unsigned long n; node::Out const* r; };\nE const table[] = {");
    for(std::size_t k = 0; k < count; ++k) std::printf("{p%zu, sizeof p%zu - 1, &r%zu},\n", k, k, k);
    std::printf("};\n#endif\n}\n#if !defined(VSIM_FLAT)\n#define EXP extern \"C\" __attribute__((visibility(\"default\")))\nEXP char const* vsim_node_name() { return VSIM_NODE_NAME; }\nEXP unsigned long vsim_ct_count() { return %zu; }\n"
        "EXP long vsim_ct_get(unsigned long k, unsigned char* o, unsigned long m) { node::Out const& r = *table[k].r; if(!r.ok) return -1; if(r.over || r.n > m) return -2; std::memcpy(o, r.b, r.n); return (long)r.n; }\n"
        "EXP unsigned char const* vsim_ct_program(unsigned long k, unsigned long* n) { *n = table[k].n; return table[k].p; }\n#endif\n", count);
    return 0;
}

int main(int argc, char** argv)
{
    if(argc == 4 && std::strcmp(argv[1], "--gen-programs") == 0) return gen_programs(std::strtoull(argv[2], 0, 10), std::strtoull(argv[3], 0, 10));
    return sim::main_(argc, argv, "C09", BUILD_NAME);
}
