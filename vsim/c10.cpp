// C10: digest output is complete, bounded and honest about failures.
#include "core.hpp"
#include <boost/hash2/digest.hpp>
#include <boost/hash2/md5.hpp>
#include <cstdlib>
#include <cstring>
#include <iomanip>
#include <memory>
#include <new>
#include <ostream>
#include <sstream>
#include <streambuf>
#include <sys/mman.h>
#include <unistd.h>

using sim::Sim; using sim::Bytes;
namespace h2 = boost::hash2;

namespace
{
// ---------------------------------------------------------------- allocator under the simulator's control
bool armed = false; std::uint64_t allocs = 0, fail_at = 0; bool failed_alloc = false;
}
void* operator new(std::size_t n)
{
    if(armed && ++allocs == fail_at) { failed_alloc = true; throw std::bad_alloc(); }
    if(void* p = std::malloc(n ? n : 1)) return p;
    throw std::bad_alloc();
}
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }

namespace
{
// the harness's own formatting
std::string want(Bytes const& b)
{
    std::string s;
    for(unsigned char c: b) for(int k = 1; k >= 0; --k) { int d = (c >> (4 * k)) & 15; s.push_back((char)(d < 10 ? '0' + d : 'a' + (d - 10))); }
    return s;
}
Bytes content(Sim& S, std::size_t n)
{
    if(S.choose(3)) return S.data(n);
    Bytes b(n); std::uint64_t k = S.choose(256);
    for(std::size_t i = 0; i < n; ++i) b[i] = (unsigned char)(k + i * S.choose(3));
    return b;
}

// a sink that accepts a number of characters and then fails in one of several ways
struct SinkBuf: std::streambuf
{
    std::string got; std::size_t cap; int how; std::size_t area; std::vector<char> buf; bool fired = false; std::size_t syncs = 0; bool sync_fails = false;
    struct Failure { int how; };
    SinkBuf(std::size_t cap_, int how_, std::size_t area_, bool sf): cap(cap_), how(how_), area(area_), buf(area_ + 1), sync_fails(sf) { if(area) setp(buf.data(), buf.data() + area); }
    bool take(char c) { if(got.size() >= cap) { fired = true; if(how == 1) throw Failure{ how }; if(how == 2) throw std::bad_alloc(); return false; } got.push_back(c); return true; }
    bool flush_area() { char* p = pbase(); char* e = pptr(); setp(buf.data(), buf.data() + area); while(p != e) if(!take(*p++)) return false; return true; }
    int_type overflow(int_type c) override
    {
        if(area && !flush_area()) return traits_type::eof();
        if(traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
        if(area) { *pptr() = (char)c; pbump(1); return c; }
        return take((char)c) ? c : traits_type::eof();
    }
    std::streamsize xsputn(char const* s, std::streamsize n) override
    {
        if(area) return std::streambuf::xsputn(s, n);
        std::streamsize i = 0; while(i < n && take(s[i])) ++i; return i;
    }
    int sync() override { ++syncs; try { if(area && !flush_area()) return -1; } catch(...) { return -1; } return sync_fails ? -1 : 0; }
    void drain() { if(area) try { flush_area(); } catch(...) {} }
};

struct Outcome { int thrown = 0; };
template<class F> Outcome guarded(F f)
{
    Outcome o;
    try { f(); }
    catch(SinkBuf::Failure const&) { o.thrown = 1; }
    catch(std::bad_alloc const&) { o.thrown = 2; }
    catch(std::ios_base::failure const&) { o.thrown = 3; }
    catch(...) { o.thrown = 4; }
    return o;
}

struct Any                                        // digest of one of several sizes
{
    virtual ~Any() {}
    virtual std::size_t n() const = 0;
    virtual void set(Bytes const&, int how) = 0;
    virtual char* chars(char* f, char* l) const = 0;
    virtual void array(char* w, int m) const = 0;          // array form with 2N+1+{0,1,7} elements
    virtual std::string str() const = 0;
    virtual void put(std::ostream&) const = 0;
    virtual bool eq(Any const&, bool ne) const = 0;
    virtual Bytes bytes(int how) const = 0;
    virtual void poke(std::size_t i, unsigned char v, int how) = 0;
};
template<std::size_t N> struct AnyN: Any
{
    // the digest lies between guards
    struct { unsigned char g0[16]; h2::digest<N> d; unsigned char g1[16]; } m;
    AnyN() { std::memset(m.g0, 0xa5, 16); std::memset(m.g1, 0x5a, 16); }
    std::size_t n() const override { return N; }
    void set(Bytes const& b, int how) override
    {
        unsigned char a[N]; std::memcpy(a, b.data(), N);
        switch(how)
        {
        case 0: m.d = h2::digest<N>(a); break;
        case 1: std::copy(b.begin(), b.end(), m.d.begin()); break;
        case 2: std::memcpy(m.d.data(), a, N); break;
        default: { h2::digest<N> t(a); for(std::size_t i = 0; i < N; ++i) m.d[i] = t[i]; }
        }
        std::memset(a, 0xee, N);
    }
    char* chars(char* f, char* l) const override { return h2::to_chars(m.d, f, l); }
    void array(char* w, int k) const override
    {
        switch(k) { case 0: h2::to_chars(m.d, *reinterpret_cast<char (*)[2 * N + 1]>(w)); break; case 1: h2::to_chars(m.d, *reinterpret_cast<char (*)[2 * N + 2]>(w)); break; default: h2::to_chars(m.d, *reinterpret_cast<char (*)[2 * N + 8]>(w)); }
    }
    std::string str() const override { return h2::to_string(m.d); }
    void put(std::ostream& os) const override { os << m.d; }
    bool eq(Any const& o, bool ne) const override { h2::digest<N> const& b = static_cast<AnyN const&>(o).m.d; return ne ? m.d != b : m.d == b; }
    Bytes bytes(int how) const override
    {
        Bytes r;
        switch(how) { case 0: r.assign(m.d.begin(), m.d.end()); break; case 1: r.assign(m.d.data(), m.d.data() + m.d.size()); break; case 2: for(std::size_t i = 0; i < m.d.size(); ++i) r.push_back(m.d[i]); break; case 4: for(auto p = m.d.end(); p != m.d.begin(); ) r.push_back(*--p); std::reverse(r.begin(), r.end()); if(m.d.max_size() != N) r.clear(); break; default: { h2::digest<N> c(m.d); r.assign(c.begin(), c.end()); if(N) { r[0] = m.d.front(); r[N - 1] = m.d.back(); } } }
        return r;
    }
    void poke(std::size_t i, unsigned char v, int how) override
    {
        if(how == 1 && i == 0) m.d.front() = v; else if(how == 1 && i == N - 1) m.d.back() = v;
        else switch(how) { default: m.d[i] = v; break; case 2: m.d.begin()[i] = v; break; case 3: m.d.data()[i] = v; break; case 4: *(m.d.end() - (std::ptrdiff_t)(N - i)) = v; break; }
    }
    bool guards() const { for(int i = 0; i < 16; ++i) if(m.g0[i] != 0xa5 || m.g1[i] != 0x5a) return false; return true; }
};
std::size_t const sizes[] = { 1, 2, 3, 4, 7, 8, 12, 16, 20, 28, 32, 48, 64, 129 };
enum { NS = sizeof sizes / sizeof sizes[0] };
std::unique_ptr<Any> make(std::size_t k)
{
    switch(sizes[k])
    {
    case 1: return std::unique_ptr<Any>(new AnyN<1>); case 2: return std::unique_ptr<Any>(new AnyN<2>); case 3: return std::unique_ptr<Any>(new AnyN<3>); case 4: return std::unique_ptr<Any>(new AnyN<4>);
    case 7: return std::unique_ptr<Any>(new AnyN<7>); case 8: return std::unique_ptr<Any>(new AnyN<8>); case 12: return std::unique_ptr<Any>(new AnyN<12>); case 16: return std::unique_ptr<Any>(new AnyN<16>);
    case 20: return std::unique_ptr<Any>(new AnyN<20>); case 28: return std::unique_ptr<Any>(new AnyN<28>); case 32: return std::unique_ptr<Any>(new AnyN<32>); case 48: return std::unique_ptr<Any>(new AnyN<48>);
    case 64: return std::unique_ptr<Any>(new AnyN<64>); default: return std::unique_ptr<Any>(new AnyN<129>);
    }
}
}

namespace
{
// a range of gigabytes, of which only the beginning can be touched
char* vast() { static char* w = nullptr; if(!w) { w = (char*)mmap(nullptr, 9ull << 30, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(w == MAP_FAILED || mprotect(w, 1 << 16, PROT_READ | PROT_WRITE)) _exit(70); } return w; }
}

// formatting into buffers of every size and position
SIM_SCENARIO(buffers)
{
    armed = false;
    auto d = make(S.strat(NS)); std::size_t N = d->n();
    Bytes b = content(S, N); d->set(b, (int)S.choose(4));
    std::string w = want(b);
    S.ev("buffers N=%zu %s", N, w.substr(0, 16).c_str());
    if(d->bytes((int)S.choose(4)) != b) S.fail("digest-content", "digest<%zu> does not hold the bytes it was given", N);
    int k = 1 + (int)S.choose(4);
    while(k--)
    {
        S.step();
        std::size_t pre = S.choose(20), post = 1 + S.choose(300);
        unsigned char canary = (unsigned char)S.choose(256);
        if(S.choose(3) == 0)
        {
            int form = (int)S.choose(3); std::size_t M = 2 * N + (form == 0 ? 1 : form == 1 ? 2 : 8);
            std::vector<char> a(pre + M + post, (char)canary);
            d->array(a.data() + pre, form);
            S.oracle(3); S.nontrivial(); S.cov(N, 1000 + form);
            S.ev("array M=%zu", M);
            if(std::memcmp(a.data() + pre, w.data(), 2 * N)) S.fail("text", "digest<%zu> to_chars array form: wrong digits", N);
            if(a[pre + 2 * N] != 0) S.fail("terminator", "digest<%zu> to_chars array form: no terminating null", N);
            for(std::size_t i = 0; i < pre; ++i) if((unsigned char)a[i] != canary) S.fail("out-of-range-write", "digest<%zu> to_chars array form wrote before the array", N);
            for(std::size_t i = pre + M; i < a.size(); ++i) if((unsigned char)a[i] != canary) S.fail("out-of-range-write", "digest<%zu> to_chars array form wrote behind the array", N);
            continue;
        }
        if(S.choose(60) == 59)
        {
            char* w0 = vast(); std::memset(w0, canary, 8192); char* f = w0 + 100 + S.choose(4000);
            std::uint64_t len = ((std::uint64_t)(1 + S.choose(3)) << (31 + S.choose(2))) - 3 + S.choose(2 * N + 6);
            char* r = d->chars(f, f + len); S.oracle(2); S.probe("range_beyond_2^31"); S.nontrivial(); S.ev("vast len=%llu", (unsigned long long)len);
            if(r != f + 2 * N) S.fail("end-pointer", "digest<%zu> to_chars into %llu characters returned %s", N, (unsigned long long)len, r ? "a wrong end" : "null");
            if(std::memcmp(f, w.data(), 2 * N)) S.fail("text", "digest<%zu> to_chars into %llu characters: wrong digits", N, (unsigned long long)len);
            for(char* q = w0; q < w0 + 8192; ++q) if((q < f || q >= f + 2 * N) && (unsigned char)*q != canary) S.fail("out-of-range-write", "digest<%zu> to_chars into %llu characters wrote at offset %ld", N, (unsigned long long)len, (long)(q - f));
            continue;
        }
        std::size_t len;
        switch(S.choose(6)) { case 0: len = 2 * N; break; case 1: len = 2 * N - 1; break; case 2: len = 2 * N + 1; break; case 3: len = S.choose(2 * N + 1); break; case 4: len = 2 * N + S.choose(40); break; default: len = S.choose(3); }
        bool null = len == 0 && S.choose(2);
        std::vector<char> a(pre + len + post, (char)canary);
        char* f = null ? nullptr : a.data() + pre;
        char* r = d->chars(f, f ? f + len : nullptr);
        S.oracle(3); S.cov(N, std::min<std::size_t>(len, 2 * N + 2), pre & 3);
        S.ev("range len=%zu", len);
        bool shortbuf = len < 2 * N;
        if(shortbuf) { S.fault("buffer_too_short"); S.nontrivial(); }
        if(shortbuf && r != nullptr) S.fail("short-buffer", "digest<%zu> to_chars into %zu characters did not return null", N, len);
        if(!shortbuf && (r == nullptr || r != f + 2 * N)) S.fail("end-pointer", "digest<%zu> to_chars into %zu characters returned %s", N, len, r ? "a wrong end" : "null");
        if(!shortbuf && std::memcmp(a.data() + pre, w.data(), 2 * N)) S.fail("text", "digest<%zu> to_chars wrote %.*s, expected %s", N, (int)(2 * N), a.data() + pre, w.c_str());
        for(std::size_t i = 0; i < a.size(); ++i)
            if((shortbuf || i < pre || i >= pre + 2 * N) && (unsigned char)a[i] != canary) S.fail("out-of-range-write", "digest<%zu> to_chars into %zu characters wrote at offset %ld", N, len, (long)i - (long)pre);
    }
}

// to_string with an allocator that runs out of memory
SIM_SCENARIO(memory)
{
    armed = false;
    auto d = make(S.strat(NS)); std::size_t N = d->n();
    Bytes b = content(S, N); d->set(b, (int)S.choose(4));
    std::string w = want(b);
    int k = 1 + (int)S.choose(4);
    for(int i = 0; i < k; ++i)
    {
        S.step();
        allocs = 0; failed_alloc = false; fail_at = S.choose(2) ? 1 + S.choose(2) : 0;
        int out = 0; std::string s; bool ok = false;
        try { armed = true; s = d->str(); armed = false; ok = true; }
        catch(std::bad_alloc const&) { armed = false; out = 1; }
        catch(...) { armed = false; out = 2; }
        S.oracle(2); S.cov(N, fail_at, failed_alloc);
        S.ev("to_string %s failed=%d", w.c_str(), failed_alloc);
        if(failed_alloc) { S.fault("allocation_failure"); S.nontrivial(); }
        if(out == 2) S.fail("exception", "digest<%zu> to_string: an unexpected exception", N);
        if(failed_alloc && ok) S.fail("lost-failure", "digest<%zu> to_string returned normally although memory ran out", N);
        if(!failed_alloc && !ok) S.fail("exception", "digest<%zu> to_string threw although memory was available", N);
        if(ok && s != w) S.fail("text", "digest<%zu> to_string gave %s, expected %s", N, s.c_str(), w.c_str());
    }
    if(d->bytes(0) != b) S.fail("digest-content", "to_string changed the digest");
}

// a journal of digests written to a stream that fails and recovers; the twin journal inserts the strings themselves
SIM_SCENARIO(journal)
{
    armed = false;
    std::size_t cap = S.choose(3) == 0 ? S.choose(8) : S.choose(600); if(S.choose(4) == 0) cap = 1u << 20;
    int how = (int)S.choose(3); std::size_t area = S.choose(2) ? 0 : 1 + S.choose(70); bool sf = S.choose(8) == 7;
    SinkBuf b1(cap, how, area, sf), b2(cap, how, area, sf);
    bool nobuf = S.choose(20) == 19;
    std::ostream o1(nobuf ? nullptr : &b1), o2(nobuf ? nullptr : &b2);
    std::ostringstream t1, t2;                                             // tied streams
    bool tied = S.choose(5) == 4;
    if(tied) { o1.tie(&t1); o2.tie(&t2); }
    int n = 1 + (int)S.choose(8);
    S.ev("journal cap=%zu how=%d area=%zu null=%d", cap, how, area, nobuf);
    std::string all;
    bool clean = true;
    std::ios_base::iostate mask = std::ios_base::goodbit;
    std::uint64_t first = S.strat(NS);
    for(int i = 0; i < n; ++i)
    {
        S.step();
        // stream state and formatting of this record
        if(S.choose(3) == 0) { std::ios_base::iostate m = (std::ios_base::iostate)S.choose(8); mask = m; Outcome x = guarded([&] { o1.exceptions(m); }), y = guarded([&] { o2.exceptions(m); }); if(x.thrown != y.thrown) S.fail("stream-state", "exception mask behaves differently"); }
        std::size_t wd = S.choose(2) ? 0 : S.choose(S.choose(3) ? 80 : 300); char fc = (char)(' ' + S.choose(60));
        static std::ios_base::fmtflags const adj[] = { std::ios_base::fmtflags(), std::ios_base::left, std::ios_base::right, std::ios_base::internal, std::ios_base::left | std::ios_base::right };
        static std::ios_base::fmtflags const oth[] = { std::ios_base::dec, std::ios_base::hex | std::ios_base::uppercase | std::ios_base::showbase, std::ios_base::oct | std::ios_base::showpos, std::ios_base::boolalpha | std::ios_base::scientific };
        std::ios_base::fmtflags fl = adj[S.choose(5)] | oth[S.choose(4)]; if(S.choose(5) == 0 && mask == std::ios_base::goodbit) fl |= std::ios_base::unitbuf;      // libstdc++ terminates when the flush of unitbuf reports a failure by exception
        int bad = S.choose(8) == 7 ? 1 + (int)S.choose(7) : 0;
        for(std::ostream* o: { &o1, &o2 }) { o->flags(fl); o->fill(fc); o->width((std::streamsize)wd); if(bad) guarded([&] { o->setstate((std::ios_base::iostate)bad); }); }
        if(bad) S.fault("stream_already_bad");
        auto d = make(i ? S.choose(NS) : first); Bytes b = content(S, d->n()); d->set(b, (int)S.choose(4)); std::string w = want(b);
        bool good_before = o1.good();
        Outcome x = guarded([&] { d->put(o1); });
        Outcome y = guarded([&] { o2 << w; });
        bool fired = b1.fired || b2.fired;
        S.oracle(6);
        S.ev("put N=%zu width=%zu state=%d thrown=%d", d->n(), wd, (int)o2.rdstate(), y.thrown);
        S.cov(d->n(), wd > 2 * d->n() ? 2 : wd != 0, (std::uint64_t)(bad * 8 + how * 4 + (area != 0) * 2 + fired), (std::uint64_t)y.thrown);
        if(b1.fired) { S.fault(how == 0 ? "sink_full" : how == 1 ? "sink_throws" : "sink_out_of_memory"); S.nontrivial(); b1.fired = false; }
        b2.fired = false;
        if(wd > 2 * d->n()) { S.probe("padded"); S.nontrivial(); }
        if(x.thrown != y.thrown) S.fail("exception", "digest<%zu> insertion (width %zu, state %d): exception kind %d, the string insertion gives %d", d->n(), wd, bad, x.thrown, y.thrown);
        if(o1.rdstate() != o2.rdstate()) S.fail("stream-state", "digest<%zu> insertion (width %zu) leaves stream state %d, the string insertion %d", d->n(), wd, (int)o1.rdstate(), (int)o2.rdstate());
        if(o1.width() != o2.width()) S.fail("width", "digest<%zu> insertion leaves width %ld, the string insertion %ld", d->n(), (long)o1.width(), (long)o2.width());
        if(o1.flags() != fl || o1.fill() != fc) S.fail("format-state", "digest<%zu> insertion changed the stream's flags or fill", d->n());
        if(b1.got != b2.got) S.fail("sink-content", "after a digest<%zu> (width %zu): the sink accepted %zu characters, for the string %zu; they differ", d->n(), wd, b1.got.size(), b2.got.size());
        // the harness's own expectation while nothing has failed
        if(good_before && !nobuf && clean)
        {
            std::string p = w; if(wd > w.size()) { std::string pad(wd - w.size(), fc); p = (fl & std::ios_base::adjustfield) == std::ios_base::left ? w + pad : pad + w; }
            all += p;
            if(all.size() > cap || sf) clean = false;
        }
        else if(!good_before) {}
        else clean = false;
        if(S.choose(4) == 0)
        {
            // the operator frees space and clears the stream
            b1.cap += 200; b2.cap += 200; guarded([&] { o1.clear(); }); guarded([&] { o2.clear(); });
            S.probe("recovered");
        }
    }
    b1.drain(); b2.drain();
    if(b1.got != b2.got) S.fail("sink-content", "the drained journals differ");
    if(clean && !nobuf && b1.got != all) S.fail("text", "journal holds %zu characters, expected %zu", b1.got.size(), all.size());
}

// replicas compare digests byte for byte
SIM_SCENARIO(compare)
{
    armed = false;
    std::size_t k = S.strat(NS);
    auto a = make(k), c = make(k); std::size_t N = a->n();
    Bytes b = content(S, N); a->set(b, (int)S.choose(4));
    Bytes e = b; int flips = (int)S.choose(3);
    for(int i = 0; i < flips; ++i) { e[S.choose(3) ? S.choose(N) : N - 1] ^= (unsigned char)(S.choose(2) ? 1u << S.choose(8) : 0x80); S.fault("bit_flip"); S.nontrivial(); }
    if(S.choose(4) == 0) { std::reverse(e.begin(), e.end()); S.fault("byte_order_reversed"); }
    c->set(e, (int)S.choose(4));
    for(int j = (int)S.choose(4); j; --j) { std::size_t i = S.choose(3) ? S.choose(N) : S.choose(2) ? N - 1 : 0; unsigned char v = (unsigned char)S.choose(256); c->poke(i, v, (int)S.choose(5)); e[i] = v; }
    bool same = b == e;
    S.oracle(4);
    S.ev("compare N=%zu same=%d %llx %llx", N, same, (unsigned long long)sim::fnv(b.data(), N), (unsigned long long)sim::fnv(e.data(), N)); S.cov(N, same, flips);
    if(a->eq(*c, false) != same || c->eq(*a, false) != same) S.fail("equality", "digest<%zu>: %s == %s is wrong", N, sim::hex(b).c_str(), sim::hex(e).c_str());
    if(a->eq(*c, true) != !same || c->eq(*a, true) != !same) S.fail("equality", "digest<%zu>: %s != %s is wrong", N, sim::hex(b).c_str(), sim::hex(e).c_str());
    if(!a->eq(*a, false)) S.fail("equality", "digest<%zu> differs from itself", N);
    if((a->str() == c->str()) != same) S.fail("text", "digest<%zu>: textual and binary equality disagree", N);
    if(c->bytes((int)S.choose(5)) != e) S.fail("digest-content", "digest<%zu> access functions disagree", N);
}

int main(int argc, char** argv) { return sim::main_(argc, argv, "C10", BUILD_NAME); }
