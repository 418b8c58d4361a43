// C12: the library touches only the memory it was given.
// Every source, object, value and output range lives in memory whose protection the simulator changes at each call:
// readable while it is an argument, revoked and overwritten as soon as the call returns, inaccessible to every other call.
// In the instrumented build each single load and store is checked against what the call was granted.
#include "values.hpp"
#include "vt.hpp"
#include <boost/hash2/digest.hpp>
#include <sys/mman.h>
#include <sstream>
#if defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define C12_ASAN 1
#  include <sanitizer/asan_interface.h>
# endif
#endif

using namespace sim;
namespace h2 = boost::hash2;
using val::small_big; using val::tiny_little;

namespace
{
enum { PAGE = 4096 };

// ---------------------------------------------------------------- memory with protections
struct Map
{
    char* lo = 0; std::size_t n = 0; int prot = -1;
    void make(std::size_t pages)
    {
        n = pages * PAGE;
        char* p = static_cast<char*>(mmap(0, n + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if(p == MAP_FAILED) val::broken("mmap");
        lo = p + PAGE; prot = PROT_NONE;
    }
    void set(int p) { if(p != prot) { if(mprotect(lo, n, p)) val::broken("mprotect"); prot = p; } }
    bool has(std::uintptr_t a) const { return a >= (std::uintptr_t)lo && a < (std::uintptr_t)lo + n; }
};
Map src, outm, objm[3], digm;
enum { SRCPAGES = 4, NOBJ = 3 };
void prepare()
{
    src.make(SRCPAGES); outm.make(1); digm.make(1);
    for(Map& m: objm) m.make(1);
    val::types(); algs::table(ref::FNV32); val::flavor(0); val::direct_alg(0); val::direct_flavor(0);
#if !defined(C12_ASAN)
    vt::arena_open(16 << 20); vt::arena_close();
#endif
}

// ---------------------------------------------------------------- the police: byte-exact rules for the call in progress
struct Rules
{
    struct R { std::uintptr_t lo, hi; bool w; };
    R r[8]; int n = 0; std::uintptr_t frame = 0; bool heap_read = true;
    R own[4096]; int nown = 0;              // allocated during the call
    std::string bad; std::uint64_t loads = 0, stores = 0;
} rules;
Sim* sim_;
std::string region(std::uintptr_t a)
{
    char t[80];
    if(src.has(a)) { std::snprintf(t, sizeof t, "the memory around the source (offset %ld)", (long)(a - (std::uintptr_t)src.lo)); return t; }
    if(outm.has(a)) { std::snprintf(t, sizeof t, "the memory around the output range (offset %ld)", (long)(a - (std::uintptr_t)outm.lo)); return t; }
    if(digm.has(a)) return "the memory around the digest";
    for(int i = 0; i < NOBJ; ++i) if(objm[i].has(a)) { std::snprintf(t, sizeof t, "the memory of object %d", i); return t; }
    if(vt::arena_lo && a >= (std::uintptr_t)vt::arena_lo && a < (std::uintptr_t)vt::arena_hi) return "the memory of a value";
    return "memory that does not belong to the call (static storage, heap or a caller's stack frame)";
}
void police(std::uintptr_t a, std::size_t n, unsigned flags)
{
    bool w = flags & vt::WRITE;
    if(w) ++rules.stores; else ++rules.loads;
    for(int i = 0; i < rules.n; ++i) if(a >= rules.r[i].lo && a + n <= rules.r[i].hi && (rules.r[i].w || !w)) return;
    std::uintptr_t sp = (std::uintptr_t)__builtin_frame_address(0);
    if(a < rules.frame && a + (2 << 20) > sp) return;                             // automatic storage of the call
    if(w)
    {
        if(vt::guarded) return;                                                   // first use: initialisation of a constant
        for(int i = 0; i < rules.nown; ++i) if(a >= rules.own[i].lo && a + n <= rules.own[i].hi) return;
    }
    else
    {
        bool ours = src.has(a) || src.has(a + n - 1) || outm.has(a) || digm.has(a) || digm.has(a + n - 1);
        for(Map const& m: objm) ours = ours || m.has(a) || m.has(a + n - 1);
        if(!ours) return;                                                         // constants
    }
    if(rules.bad.empty()) { char t[64]; std::snprintf(t, sizeof t, "%s of %zu bytes in ", w ? "write" : "read", n); rules.bad = t + region(a); }
}
void took(void* p, std::size_t n) { if(rules.nown < 4096) rules.own[rules.nown++] = Rules::R{ (std::uintptr_t)p, (std::uintptr_t)p + n, true }; }

// grants for one call
struct Call
{
    Sim& S; char const* what;
    Call(Sim& s, char const* w): S(s), what(w) { rules.n = 0; rules.nown = 0; rules.bad.clear(); }
    Call& may(void const* p, std::size_t n, bool write) { if(rules.n >= 8) val::broken("rules"); rules.r[rules.n++] = Rules::R{ (std::uintptr_t)p, (std::uintptr_t)p + n, write }; return *this; }
    template<class F> void __attribute__((noinline)) go(F f)
    {
#if defined(C12_POLICE)
        rules.frame = (std::uintptr_t)__builtin_frame_address(0);
        vt::hooks = vt::Hooks(); vt::hooks.access = police; vt::hooks.alloc = took;
        { f(1); }
        vt::hooks = vt::Hooks();
        if(!rules.bad.empty()) S.fail("stray-access", "%s: %s", what, rules.bad.c_str());
#else
        f(0);
#endif
    }
};
#if defined(C12_POLICE)
# define WATCHED(expr) { vt::On on_; expr; }
#else
# define WATCHED(expr) { expr; }
#endif

// ---------------------------------------------------------------- placing a source
struct Source
{
    unsigned char* p; std::size_t n;
};
// where: 0 against the upper guard, 1 against the lower guard, 2 anywhere
Source place(Sim& S, std::size_t n, std::size_t align)
{
    Source s; s.n = n;
    src.set(PROT_READ | PROT_WRITE);
#if defined(C12_ASAN)
    __asan_unpoison_memory_region(src.lo, src.n);
#endif
    std::size_t room = src.n - n;
    switch(S.choose(3)) { case 0: s.p = (unsigned char*)src.lo + room / align * align; break; case 1: s.p = (unsigned char*)src.lo; break; default: s.p = (unsigned char*)src.lo + S.choose(std::min<std::size_t>(room, 64) / align + 1) * align; }
    // what lies around the source never matters
    std::size_t a = s.p - (unsigned char*)src.lo; unsigned char junk = (unsigned char)S.choose(256);
    std::memset(s.p - std::min<std::size_t>(a, 64), junk, std::min<std::size_t>(a, 64));
    std::size_t b = src.n - a - n; std::memset(s.p + n, junk ^ 0x55, std::min<std::size_t>(b, 64));
    return s;
}
void grant(Source const& s)
{
    src.set(PROT_READ);
#if defined(C12_ASAN)
    __asan_poison_memory_region(src.lo, src.n); __asan_unpoison_memory_region(s.p, s.n);
#endif
    (void)s;
}
void revoke(Sim& S, Source const& s)
{
#if defined(C12_ASAN)
    __asan_unpoison_memory_region(src.lo, src.n);
#endif
    src.set(PROT_READ | PROT_WRITE);
    std::memset(s.p, (int)(0xC3 ^ S.dirt()), s.n);
    src.set(PROT_NONE);
    S.fault("source_revoked");
}
// an argument for a zero-length update or seed
void const* nowhere(Sim& S)
{
    src.set(PROT_NONE);
    S.fault("pointer_to_nothing");
    switch(S.choose(7))
    {
    case 0: return nullptr;
    case 1: return src.lo;                       // revoked
    case 2: return src.lo + src.n;               // behind the end
    case 3: return (void const*)1;
    case 4: return (void const*)~(std::uintptr_t)0;
    case 5: return (void const*)0x8000000000000000ull;
    default: return objm[0].lo - 1;
    }
}

struct Object
{
    unsigned char* m = 0; bool live = false; ref::Alg a = ref::FNV32; ref::Hash h; Map* map = 0;
    algs::VT const& vt() const { return algs::table(a); }
};

void protect(Object* o, int n, int w, int r)    // w: written, r: read; everything else is out of bounds
{
    for(int i = 0; i < n; ++i) o[i].map->set(i == w ? PROT_READ | PROT_WRITE : i == r ? PROT_READ : PROT_NONE);
}
void seat(Sim& S, Object& o, ref::Alg a)
{
    o.a = a; o.live = true;
    std::size_t z = o.vt().size, al = o.vt().align;
    o.map->set(PROT_READ | PROT_WRITE);
    std::memset(o.map->lo, (int)S.choose(256), PAGE);
    o.m = S.choose(2) ? (unsigned char*)o.map->lo + (PAGE - z) / al * al : (unsigned char*)o.map->lo;
}
}

// ---------------------------------------------------------------- sessions on three objects
static void session(Sim& S)
{
    sim_ = &S;
    Object o[NOBJ];
    for(int i = 0; i < NOBJ; ++i) { o[i].map = &objm[i]; objm[i].set(PROT_NONE); }
    ref::Alg a0 = (ref::Alg)S.strat(ref::NALG);
    int steps = 3 + (int)S.choose(20);
    for(int t = 0; t < steps; ++t)
    {
        S.step();
        int i = (int)S.choose(NOBJ), j = (int)S.choose(NOBJ);
        Object& x = o[i]; Object& y = o[j];
        int op = x.live ? (int)S.choose(16) : 10 + (int)S.choose(4);
        algs::VT const* vt;
        switch(op)
        {
        case 0: case 1: case 2: case 3: case 4:                                   // update
            {
                std::size_t n = S.length(ref::block_size(x.a), 300); bool u = S.choose(2);
                Source s = place(S, n, 1); S.fill(s.p, n);
                x.h.update(s.p, n);
                grant(s); protect(o, NOBJ, i, -1); vt = &x.vt();
                Call c(S, "update"); c.may(x.m, vt->size, true).may(s.p, n, false);
                auto f = u ? vt->update_u : nullptr; auto g = vt->update_v;
                c.go([&](int) { if(f) WATCHED(f(x.m, s.p, n)) else WATCHED(g(x.m, s.p, n)) });
                S.ev("update %d %zu at %zu", i, n, (std::size_t)(s.p - (unsigned char*)src.lo));
                revoke(S, s);
                S.cov(x.a, 0, std::min<std::size_t>(n, 255), ((std::size_t)s.p & 7));
                break;
            }
        case 5: case 6:                                                           // zero-length update
            {
                void const* p = nowhere(S); bool u = S.choose(2);
                protect(o, NOBJ, i, -1); vt = &x.vt();
                Call c(S, "zero-length update"); c.may(x.m, vt->size, true);
                auto f = vt->update_u; auto g = vt->update_v;
                c.go([&](int) { if(u) WATCHED(f(x.m, static_cast<unsigned char const*>(p), 0)) else WATCHED(g(x.m, p, 0)) });
                S.ev("update %d nothing", i);
                S.cov(x.a, 1);
                break;
            }
        case 7: case 8: case 9:                                                   // result, the digest goes to a range of exactly its size
            {
                std::size_t n = ref::digest_size(x.a); unsigned char out[64];
                protect(o, NOBJ, i, -1); vt = &x.vt();
                Call c(S, "result"); c.may(x.m, vt->size, true).may(out, n, true);
                auto f = vt->result;
                c.go([&](int) { WATCHED(f(x.m, out)) });
                Bytes e = x.h.result(); S.oracle();
                S.ev("result %d", i);
                S.nontrivial();
                if(std::memcmp(out, e.data(), n)) S.fail("result", "%s: result %s instead of %s after sources were revoked and neighbours changed", ref::name(x.a), hex(out, n).c_str(), hex(e).c_str());
                S.cov(x.a, 2);
                break;
            }
        case 10: case 11: case 12: case 13:                                       // a new object
            {
                ref::Alg a = S.choose(3) ? a0 : (ref::Alg)S.choose(ref::NALG);
                seat(S, x, a); vt = &x.vt();
                protect(o, NOBJ, i, -1);
                if(op == 10) { Call c(S, "default construction"); c.may(x.m, vt->size, true); auto f = vt->def; c.go([&](int) { WATCHED(f(x.m)) }); x.h = ref::Hash(a); S.ev("default %d %s", i, ref::name(a)); }
                else if(op == 11) { std::uint64_t sd = S.edgy64(); Call c(S, "integer seed"); c.may(x.m, vt->size, true); auto f = vt->seed; c.go([&](int) { WATCHED(f(x.m, sd)) }); x.h = ref::Hash(a, sd); S.ev("seed %d %s", i, ref::name(a)); }
                else if(op == 12 && S.choose(3) == 2)
                {
                    void const* p = nowhere(S);
                    Call c(S, "zero-length seed"); c.may(x.m, vt->size, true); auto f = vt->bytes;
                    c.go([&](int) { WATCHED(f(x.m, static_cast<unsigned char const*>(p), 0)) });
                    unsigned char z = 0; x.h = ref::Hash(a, &z, 0); S.ev("empty seed %d %s", i, ref::name(a));
                    S.cov(a, 3);
                }
                else
                {
                    std::size_t n = S.length(ref::block_size(a), 300);
                    Source s = place(S, n, 1); S.fill(s.p, n);
                    x.h = ref::Hash(a, s.p, n);
                    grant(s);
                    Call c(S, "byte seed"); c.may(x.m, vt->size, true).may(s.p, n, false); auto f = vt->bytes;
                    c.go([&](int) { WATCHED(f(x.m, s.p, n)) });
                    S.ev("key %d %s %zu", i, ref::name(a), n);
                    revoke(S, s);
                    S.cov(a, 4, std::min<std::size_t>(n, 255), ((std::size_t)s.p & 7));
                }
                break;
            }
        case 14:                                                                  // copy; the original is read-only
            {
                if(!y.live || i == j) break;
                seat(S, x, y.a); vt = &x.vt(); protect(o, NOBJ, i, j);
                Call c(S, "copy"); c.may(x.m, vt->size, true).may(y.m, vt->size, false); auto f = vt->copy;
                c.go([&](int) { WATCHED(f(x.m, y.m)) });
                x.h = y.h; S.ev("copy %d from %d", i, j);
                break;
            }
        default:                                                                  // assignment
            {
                if(!y.live || i == j || y.a != x.a) break;
                vt = &x.vt(); protect(o, NOBJ, i, j);
                Call c(S, "assignment"); c.may(x.m, vt->size, true).may(y.m, vt->size, false); auto f = vt->assign;
                c.go([&](int) { WATCHED(f(x.m, y.m)) });
                x.h = y.h; S.ev("assign %d from %d", i, j);
            }
        }
    }
    for(int i = 0; i < NOBJ; ++i) objm[i].set(PROT_NONE);
#if defined(C12_POLICE)
    S.oracle(rules.loads + rules.stores); S.probe("loads_checked", rules.loads); S.probe("stores_checked", rules.stores); rules.loads = rules.stores = 0;
#endif
}
static sim::Register reg_session("session", session, 20, prepare);

// ---------------------------------------------------------------- arrays and ranges that end where the memory ends
namespace mem
{
struct Rgb { unsigned char r, g, b; };
BOOST_DESCRIBE_STRUCT(Rgb, (), (r, g, b))
enum class EB: unsigned char { x };
enum class ES: short { x };
}
template<> struct boost::hash2::is_trivially_equality_comparable<mem::Rgb>: std::true_type {};
template<> struct boost::hash2::is_endian_independent<mem::Rgb>: std::true_type {};
VAL_STRUCT(mem::Rgb, v.r, v.g, v.b)

namespace
{
using namespace mem;
enum { K_RANGE, K_SIZED, K_UNORD, K_ARR1, K_ARR3, K_ARR17, K_STD4, K_NK };
template<class H, class F, class T> void append_k(int k, void* h_, void const* p, std::size_t n)
{
    H& h = *static_cast<H*>(h_); T const* f = static_cast<T const*>(p); F fl;
    switch(k)
    {
    case K_RANGE: h2::hash_append_range(h, fl, f, f + n); break;
    case K_SIZED: h2::hash_append_sized_range(h, fl, f, f + n); break;
    case K_UNORD: h2::hash_append_unordered_range(h, fl, f, f + n); break;
    case K_ARR1: h2::hash_append(h, fl, *reinterpret_cast<T const(*)[1]>(p)); break;
    case K_ARR3: h2::hash_append(h, fl, *reinterpret_cast<T const(*)[3]>(p)); break;
    case K_ARR17: h2::hash_append(h, fl, *reinterpret_cast<T const(*)[17]>(p)); break;
    case K_STD4: h2::hash_append(h, fl, *reinterpret_cast<std::array<T, 4> const*>(p)); break;
    }
}
int const klen[K_NK] = { -1, -1, -1, 1, 3, 17, 4 };
template<class H, class T> void append_f(int fl, int k, void* h, void const* p, std::size_t n)
{
    if(fl == 0) append_k<H, h2::default_flavor, T>(k, h, p, n); else append_k<H, h2::big_endian_flavor, T>(k, h, p, n);
}
enum { NRH = 3 };
ref::Alg const rh[NRH] = { ref::FNV32, ref::SIP64, ref::SHA256 };
template<class T> void append_h(int hi, int fl, int k, void* h, void const* p, std::size_t n)
{
    switch(hi)
    {
    case 0: append_f<h2::fnv1a_32, T>(fl, k, h, p, n); break; case 1: append_f<h2::siphash_64, T>(fl, k, h, p, n); break; default: append_f<h2::sha2_256, T>(fl, k, h, p, n);
    }
}
struct RT { char const* name; std::size_t size, align; void (*app)(int, int, int, void*, void const*, std::size_t); void (*gen)(Sim&, void*); val::Value (*model)(void const*); };
template<class T> RT rt(char const* n) { return RT{ n, sizeof(T), alignof(T), append_h<T>, [](Sim& S, void* m) { T* t = ::new(m) T; val::Codec<T>::gen(S, *t); }, [](void const* m) { return val::Codec<T>::model(*static_cast<T const*>(m)); } }; }
RT const rts[] = { rt<unsigned char>("unsigned char"), rt<char>("char"), rt<signed char>("signed char"), rt<bool>("bool"), rt<short>("short"), rt<int>("int"), rt<unsigned long long>("unsigned long long"), rt<float>("float"), rt<double>("double"), rt<EB>("enum:uchar"), rt<ES>("enum:short"), rt<Rgb>("Rgb"), rt<void*>("void*"), rt<h2::digest<20>>("digest<20>"), rt<std::pair<char, char>>("pair<char,char>") };
}

static void ranges(Sim& S)
{
    sim_ = &S;
    RT const& t = rts[S.strat(sizeof rts / sizeof *rts)];
    int hi = (int)S.choose(NRH), calls = 1 + (int)S.choose(5);
    Object x; x.map = &objm[0]; objm[0].set(PROT_NONE); seat(S, x, rh[hi]);
    std::uint64_t seed = S.edgy64(); x.vt().seed(x.m, seed);
    val::Sink k(x.a, ref::Hash(x.a, seed));
    while(calls--)
    {
        int fl = (int)S.choose(2) * 2, kind = (int)S.choose(K_NK);
        std::size_t n = klen[kind] >= 0 ? klen[kind] : S.choose(4) == 3 ? S.choose(80) : S.choose(7);
        void const* p; Source s; s.n = 0; s.p = 0;
        val::Value v = val::Value::group(kind >= K_ARR1 ? val::Value::FIX : kind == K_UNORD ? val::Value::UNORD : val::Value::SEQ);
        if(n == 0)
        {
            do p = nowhere(S); while((std::uintptr_t)p % t.align);      // pointers of type T const* are aligned
            if((std::uintptr_t)p == ~(std::uintptr_t)0) p = 0;
        }
        else
        {
            s = place(S, n * t.size, t.align); p = s.p;
            for(std::size_t i = 0; i < n; ++i) { t.gen(S, s.p + i * t.size); v.kids.push_back(t.model(s.p + i * t.size)); }
        }
        if(kind == K_RANGE) { for(auto& e: v.kids) val::encode(e, val::flavor(fl), k); } else val::encode(v, val::flavor(fl), k);
        if(s.p) grant(s);
        Call c(S, "hash_append of a range"); c.may(x.m, x.vt().size, true).may(p, n * t.size, false);
        c.go([&](int) { WATCHED(t.app(hi, fl, kind, x.m, p, n)) });
        if(s.p) revoke(S, s);
        S.ev("%s kind %d n=%zu flavor %d", t.name, kind, n, fl); S.cov(fnv(t.name, std::strlen(t.name)), kind, std::min<std::size_t>(n, 20), fl * 8 + hi);
        S.step();
    }
    unsigned char out[64]; x.vt().result(x.m, out); Bytes e = k.h.result(); S.oracle(); S.nontrivial();
    objm[0].set(PROT_NONE);
#if defined(C12_POLICE)
    S.oracle(rules.loads + rules.stores); S.probe("loads_checked", rules.loads); S.probe("stores_checked", rules.stores); rules.loads = rules.stores = 0;
#endif
    if(std::memcmp(out, e.data(), e.size())) S.fail("range-result", "%s over %s: digest %s instead of %s", ref::name(x.a), t.name, hex(out, e.size()).c_str(), hex(e).c_str());
}
static sim::Register reg_ranges("ranges", ranges, 20, prepare);

// ---------------------------------------------------------------- values of every type in memory that is read-only during the call and gone after it
#if !defined(C12_ASAN)
static void values(Sim& S)
{
    sim_ = &S;
    auto& ts = val::types(); val::TypeOps const& t = ts[S.strat(ts.size())];
    mprotect(vt::arena_lo, 16 << 20, PROT_READ | PROT_WRITE);
    vt::arena_fill = S.dirt(); vt::arena_open(0);
    std::size_t pad = S.choose(4) * 16; vt::arena_cur += pad;
    void* m = ::operator new(t.size); t.gen(S, m);
    std::size_t used = (std::size_t)(vt::arena_cur - vt::arena_lo);
    vt::arena_close();
    std::size_t len = (used + PAGE) / PAGE * PAGE;
    val::Value v = t.model(m);
    int fl = (int)S.choose(val::NFLAV); ref::Alg a = (ref::Alg)S.choose(ref::NDOC); std::uint64_t seed = S.edgy64();
    val::Sink k(a, ref::Hash(a, seed)); val::encode(v, val::flavor(fl), k);
    int di = (int)S.choose(val::NDIRECT); ref::Alg da = val::direct_alg(di); val::Sink kd(da, ref::Hash(da, seed)); val::encode(v, val::flavor(val::direct_flavor(di)), kd);
    val::AnyHash h(a, seed); h.msg.reserve(1 << 14);

    S.ev("value %s leaves %zu flavor %d", t.name, v.leaves(), fl); S.cov(fnv(t.name, std::strlen(t.name)), std::min<std::size_t>(v.leaves(), 200), fl, di);
    if(mprotect(vt::arena_lo, len, PROT_READ)) val::broken("mprotect");
    S.fault("value_write_protected");
    Bytes d;
    {
        Call c(S, "hash_append"); c.may(&d, sizeof d, true).may(m, t.size, false);
        c.go([&](int) { WATCHED(d = t.direct(di, seed, m)) });
    }
    t.append(fl, h, m);
    // the value is gone
    mprotect(vt::arena_lo, len, PROT_READ | PROT_WRITE);
    std::memset(vt::arena_lo, 0x6e ^ S.dirt(), used);
    mprotect(vt::arena_lo, len, PROT_NONE);
    S.fault("value_revoked");
    Bytes got = h.digest(), more;
    h.update("x", 1); more = h.digest();
    S.oracle(3); S.nontrivial();
    mprotect(vt::arena_lo, len, PROT_READ | PROT_WRITE);
#if defined(C12_POLICE)
    S.oracle(rules.loads + rules.stores); S.probe("loads_checked", rules.loads); S.probe("stores_checked", rules.stores); rules.loads = rules.stores = 0;
#endif
    if(d != kd.h.result()) S.fail("value-result", "%s: %s gives %s", t.name, ref::name(da), hex(d).c_str());
    if(got != k.h.result()) S.fail("value-result", "%s: %s gives %s after the value was revoked", t.name, ref::name(a), hex(got).c_str());
    unsigned char one = 'x'; k.h.update(&one, 1);
    if(more != k.h.result()) S.fail("value-result", "%s: %s gives another digest for the continued message", t.name, ref::name(a));
}
static sim::Register reg_values("values", values, 20, prepare);
#endif

// ---------------------------------------------------------------- digests and their text
namespace
{
struct DT
{
    std::size_t n;
    void (*make)(void*, unsigned char const*);
    char* (*chars)(void const*, char*, char*);
    void (*array)(void const*, char*);
    void (*str)(void const*, std::string*);
    void (*put)(void const*, std::ostream&);
    bool (*eq)(void const*, void const*);
    void (*copy)(void*, void const*);
    unsigned long long (*integral)(void const*, int);
};
template<std::size_t N> DT dt()
{
    typedef h2::digest<N> D;
    DT d; d.n = N;
    d.make = [](void* m, unsigned char const* p) { ::new(m) D(*reinterpret_cast<unsigned char const(*)[N]>(p)); };
    d.chars = [](void const* m, char* f, char* l) { return h2::to_chars(*static_cast<D const*>(m), f, l); };
    d.array = [](void const* m, char* f) { h2::to_chars(*static_cast<D const*>(m), *reinterpret_cast<char(*)[2 * N + 1]>(f)); };
    d.str = [](void const* m, std::string* s) { *s = to_string(*static_cast<D const*>(m)); };
    d.put = [](void const* m, std::ostream& o) { o << *static_cast<D const*>(m); };
    d.eq = [](void const* a, void const* b) { return *static_cast<D const*>(a) == *static_cast<D const*>(b); };
    d.copy = [](void* m, void const* s) { ::new(m) D(*static_cast<D const*>(s)); };
    d.integral = [](void const* m, int w) -> unsigned long long { D const& x = *static_cast<D const*>(m); switch(w) { case 0: return h2::get_integral_result<unsigned char>(x); case 1: return h2::get_integral_result<unsigned short>(x); case 2: return h2::get_integral_result<unsigned>(x); default: return h2::get_integral_result<unsigned long long>(x); } };
    return d;
}
DT const dts[] = { dt<8>(), dt<9>(), dt<16>(), dt<20>(), dt<28>(), dt<32>(), dt<48>(), dt<64>(), dt<1000>() };
}

static void text(Sim& S)
{
    sim_ = &S;
    DT const& t = dts[S.strat(sizeof dts / sizeof *dts)];
    Source s = place(S, t.n, 1); S.fill(s.p, t.n); Bytes b(s.p, s.p + t.n);
    grant(s);
    bool top = S.choose(2);
    digm.set(PROT_READ | PROT_WRITE); std::memset(digm.lo, (int)S.choose(256), PAGE);
    char* d = top ? digm.lo + PAGE - t.n : digm.lo;
    { Call c(S, "digest from array"); c.may(d, t.n, true).may(s.p, t.n, false); c.go([&](int) { WATCHED(t.make(d, s.p)) }); }
    revoke(S, s);
    digm.set(PROT_READ);
    std::string want; for(unsigned char x: b) { want += "0123456789abcdef"[x >> 4]; want += "0123456789abcdef"[x & 15]; }
    int ops = 1 + (int)S.choose(4);
    while(ops--)
    {
        S.step();
        outm.set(PROT_READ | PROT_WRITE); std::memset(outm.lo, 'z', PAGE);
        switch(S.choose(7))
        {
        case 0: case 1:                                                            // a range of n characters
            {
                std::size_t n; switch(S.choose(4)) { case 0: n = 2 * t.n; break; case 1: n = 2 * t.n + S.choose(4); break; case 2: n = 2 * t.n - 1 - S.choose(3); break; default: n = S.choose(2 * t.n); }
                char* f = S.choose(2) ? outm.lo + PAGE - n : outm.lo; char* r = 0;
                Call c(S, "to_chars"); c.may(d, t.n, false).may(f, n, true).may(&r, sizeof r, true);
                c.go([&](int) { WATCHED(r = t.chars(d, f, f + n)) });
                S.ev("to_chars %zu into %zu", t.n, n); S.cov(t.n, 0, n < 2 * t.n ? 0 : n - 2 * t.n + 1); S.oracle();
                if(r != (n >= 2 * t.n ? f + 2 * t.n : nullptr)) S.fail("to-chars-result", "to_chars of a %zu byte digest into %zu characters returned a wrong pointer", t.n, n);
                if(r && want != std::string(f, f + 2 * t.n)) S.fail("to-chars-text", "to_chars of a %zu byte digest wrote another text", t.n);
                for(char* q = outm.lo; q < outm.lo + PAGE; ++q) if((q < f || q >= f + n || !r) && *q != 'z') S.fail("to-chars-bounds", "to_chars of a %zu byte digest into %zu characters changed offset %ld", t.n, n, (long)(q - f));
                break;
            }
        case 2:
            {
                std::size_t n = 2 * t.n + 1; char* f = S.choose(2) ? outm.lo + PAGE - n : outm.lo;
                Call c(S, "to_chars into an array"); c.may(d, t.n, false).may(f, n, true);
                c.go([&](int) { WATCHED(t.array(d, f)) });
                S.ev("to_chars array %zu", t.n); S.cov(t.n, 1); S.oracle();
                if(want != std::string(f)) S.fail("to-chars-text", "to_chars of a %zu byte digest into an array wrote another text", t.n);
                for(char* q = outm.lo; q < outm.lo + PAGE; ++q) if((q < f || q >= f + n) && *q != 'z') S.fail("to-chars-bounds", "to_chars of a %zu byte digest into an array changed offset %ld", t.n, (long)(q - f));
                break;
            }
        case 3: { std::string r; { Call c(S, "to_string"); c.may(d, t.n, false).may(&r, sizeof r, true); c.go([&](int) { WATCHED(t.str(d, &r)) }); } S.ev("to_string"); S.oracle(); if(r != want) S.fail("to-string", "to_string of a %zu byte digest gives %s", t.n, r.c_str()); break; }
        case 4: { std::ostringstream o; t.put(d, o); S.ev("stream"); S.oracle(); if(o.str() != want) S.fail("stream", "operator<< of a %zu byte digest gives %s", t.n, o.str().c_str()); break; }
        case 5:
            {
                char* e = S.choose(2) ? outm.lo + PAGE - t.n : outm.lo; bool r = false;
                { Call c(S, "digest copy"); c.may(e, t.n, true).may(d, t.n, false); c.go([&](int) { WATCHED(t.copy(e, d)) }); }
                bool same = S.choose(2); if(!same) e[S.choose(t.n)] ^= (char)(1 << S.choose(8));
                outm.set(PROT_READ);
                { Call c(S, "digest comparison"); c.may(e, t.n, false).may(d, t.n, false).may(&r, sizeof r, true); c.go([&](int) { WATCHED(r = t.eq(e, d)) }); }
                S.ev("compare %d", same); S.oracle();
                if(r != same) S.fail("compare", "comparison of %zu byte digests", t.n);
                break;
            }
        default: { int w = (int)S.choose(4); unsigned long long r = 0, e = 0; for(int i = 0; i < 1 << w; ++i) e |= (unsigned long long)b[i] << (8 * i); { Call c(S, "get_integral_result"); c.may(d, t.n, false).may(&r, sizeof r, true); c.go([&](int) { WATCHED(r = t.integral(d, w)) }); } S.ev("integral %d", w); S.oracle(); if(r != e) S.fail("integral", "get_integral_result of a %zu byte digest", t.n); }
        }
    }
    digm.set(PROT_NONE); outm.set(PROT_NONE);
    S.nontrivial();
#if defined(C12_POLICE)
    S.oracle(rules.loads + rules.stores); S.probe("loads_checked", rules.loads); S.probe("stores_checked", rules.stores); rules.loads = rules.stores = 0;
#endif
}
static sim::Register reg_text("text", text, 20, prepare);

int main(int argc, char** argv) { return sim::main_(argc, argv, "C12", BUILD_NAME); }
