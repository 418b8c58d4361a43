// C05: equal values hash equal on every replica, as the documented encoding.
#include "values.hpp"
#include "large.hpp"
#include <set>
#include <cfenv>
#include <sys/mman.h>
#include <iterator>

using sim::Sim; using sim::Bytes;
using namespace val;

namespace
{
struct Env
{
    int mode;
    explicit Env(Sim& S) { static int const m[] = { FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO }; std::uint64_t k = S.choose(4); mode = (int)k; std::fesetround(m[k]); if(k) S.fault("rounding_mode_changed"); }
    ~Env() { std::fesetround(FE_TONEAREST); }
};

std::string brief(Bytes const& b) { if(b.size() <= 40) return sim::hex(b); Bytes t(b.begin(), b.begin() + 40); return sim::hex(t) + "..(" + std::to_string(b.size()) + ")"; }

std::size_t mismatch_at(Bytes const& a, Bytes const& b) { std::size_t i = 0; while(i < a.size() && i < b.size() && a[i] == b[i]) ++i; return i; }

} // namespace

SIM_SCENARIO(values)
{
    TypeOps const& T = types()[S.strat(types().size())];
    ref::Alg a = (ref::Alg)S.choose(ref::NALG);
    std::uint64_t seed = S.edgy64();
    Cell origin; origin.gen(S, T);
    if(S.choose(3) == 0) T.mutate(S, origin.mem);
    Value m = origin.model();
    std::string canon = m.canon();
    int n = 1 + (int)S.choose(3);
    Bytes prefix = S.data(S.choose(3) ? 0 : S.choose(100));
    S.ev("value %s leaves=%zu alg=%s", T.name, m.leaves(), ref::name(a));
    S.cov(sim::fnv(T.name, std::strlen(T.name)), std::min<std::size_t>(m.leaves(), 200), sim::fnv(canon.data(), canon.size()) & 0xff);
    if(m.leaves() > 1) S.nontrivial();

    ref::Hash rh(a, seed); rh.update(prefix);
    AnyHash start(a, seed); start.update(prefix.data(), prefix.size());
    start.msg.clear();

    std::unique_ptr<Cell> prev;
    for(int r = 0; r <= n; ++r)
    {
        S.step();
        std::unique_ptr<Cell> rep(new Cell);
        if(r) { rep->rebuild(S, prev ? *prev : origin); S.probe("rebuilt"); }
        Cell& c = r ? *rep : origin;
        if(c.model().canon() != canon) broken("rebuild changed the value");
        int f = (int)S.choose(NFLAV);
        Sink s(a, rh); encode(m, flavor(f), s);
        AnyHash h(start);
        bool again = S.choose(4) == 3;
        {
            Env e(S);
            T.append(f, h, c.mem);
            if(again) T.append(f, h, c.mem);
        }
        if(again) encode(m, flavor(f), s);
        S.oracle(2);
        S.ev("replica %d flavor=%s bytes=%zu", r, flavor(f).name, s.msg.size());
        if(h.msg != s.msg) S.fail(r ? "replica-message" : "message", "%s in flavor %s: message differs from the documented one at byte %zu (%zu bytes sent, %zu documented): %s, documented %s", T.name, flavor(f).name, mismatch_at(h.msg, s.msg), h.msg.size(), s.msg.size(), brief(h.msg).c_str(), brief(s.msg).c_str());
        Bytes g = h.digest(), w = s.h.result();
        if(g != w) S.fail("replica-digest", "%s in flavor %s with %s: digest %s, expected %s", T.name, flavor(f).name, ref::name(a), sim::hex(g).c_str(), sim::hex(w).c_str());
        if(S.choose(3) == 0)
        {
            int i = (int)S.choose(NDIRECT);
            Bytes d;
            { Env e(S); d = T.direct(i, seed, c.mem); }
            Sink t(direct_alg(i), ref::Hash(direct_alg(i), seed)); encode(m, flavor(direct_flavor(i)), t);
            S.oracle();
            S.ev("direct %d", i);
            Bytes x = t.h.result();
            if(d != x) S.fail("direct-digest", "%s through %s: digest %s, expected %s", T.name, ref::name(direct_alg(i)), sim::hex(d).c_str(), sim::hex(x).c_str());
        }
        if(c.model().canon() != canon) S.fail("value-modified", "%s: hash_append changed the value it was given", T.name);
        prev = std::move(rep); if(!r) prev.reset();
    }
}

// ---------------------------------------------------------------- user-visible range functions over iterators of every kind

namespace
{
template<class T, class Cat, bool ByValue> struct It
{
    using value_type = T; using difference_type = std::ptrdiff_t; using iterator_category = Cat;
    using reference = typename std::conditional<ByValue, T, T const&>::type; using pointer = T const*;
    T const* p = nullptr; std::size_t* derefs = nullptr;
    reference operator*() const { return *p; }
    T const* operator->() const { return p; }
    It& operator++() { ++p; return *this; }
    It operator++(int) { It t(*this); ++p; return t; }
    It& operator--() { --p; return *this; }
    It operator--(int) { It t(*this); --p; return t; }
    It& operator+=(std::ptrdiff_t n) { p += n; return *this; }
    It& operator-=(std::ptrdiff_t n) { p -= n; return *this; }
    T const& operator[](std::ptrdiff_t n) const { return p[n]; }
    friend It operator+(It a, std::ptrdiff_t n) { a.p += n; return a; }
    friend It operator+(std::ptrdiff_t n, It a) { a.p += n; return a; }
    friend It operator-(It a, std::ptrdiff_t n) { a.p -= n; return a; }
    friend std::ptrdiff_t operator-(It a, It b) { return a.p - b.p; }
    friend bool operator==(It a, It b) { return a.p == b.p; }
    friend bool operator!=(It a, It b) { return a.p != b.p; }
    friend bool operator<(It a, It b) { return a.p < b.p; }
    friend bool operator>(It a, It b) { return a.p > b.p; }
    friend bool operator<=(It a, It b) { return a.p <= b.p; }
    friend bool operator>=(It a, It b) { return a.p >= b.p; }
};

// single pass: reading a position that has been passed already yields a poisoned element
template<class T> struct Once
{
    struct Src { T const* p; T const* end; T cur; bool loaded = false; };
    using value_type = T; using difference_type = std::ptrdiff_t; using iterator_category = std::input_iterator_tag; using reference = T const&; using pointer = T const*;
    Src* s = nullptr;
    T const& operator*() const { if(!s->loaded) { s->cur = *s->p; s->loaded = true; } return s->cur; }
    T const* operator->() const { return &**this; }
    Once& operator++() { ++s->p; s->loaded = false; return *this; }
    void operator++(int) { ++*this; }
    bool at_end() const { return !s || s->p == s->end; }
    friend bool operator==(Once const& a, Once const& b) { return a.at_end() == b.at_end(); }
    friend bool operator!=(Once const& a, Once const& b) { return !(a == b); }
};

enum { R_RANGE, R_SIZED, R_UNORD };
template<class F, class I> void call(int fn, AnyHash& h, I first, I last)
{
    F f;
    switch(fn) { case R_RANGE: h2::hash_append_range(h, f, first, last); break; case R_SIZED: h2::hash_append_sized_range(h, f, first, last); break; default: h2::hash_append_unordered_range(h, f, first, last); }
}
template<class I> void call(int fn, int fl, AnyHash& h, I first, I last)
{
    switch(fl) { case 0: call<h2::default_flavor>(fn, h, first, last); break; case 1: call<h2::little_endian_flavor>(fn, h, first, last); break; case 2: call<h2::big_endian_flavor>(fn, h, first, last); break; case 3: call<small_big>(fn, h, first, last); break; default: call<tiny_little>(fn, h, first, last); }
}

template<class T> void ranges_of(Sim& S, char const* tname)
{
    std::size_t n = gen_len(S);
    std::vector<Box<T>> src; for(std::size_t i = 0; i < n; ++i) src.push_back(Box<T>{ fresh<T>(S) });
    std::unique_ptr<T[]> arr(new T[n + 2]);
    for(std::size_t i = 0; i < n; ++i) arr[i + 1] = src[i].e;
    Codec<T>::gen(S, arr[0]); Codec<T>::gen(S, arr[n + 1]);
    T const* p = arr.get() + 1; T const* e = p + n;
    ref::Alg a = (ref::Alg)S.choose(ref::NALG); std::uint64_t seed = S.edgy64();
    int fn = (int)S.choose(3), fl = (int)S.choose(NFLAV), kind = (int)S.choose(10);
    AnyHash h(a, seed); Sink s(a, ref::Hash(a, seed));
    Value v = Value::group(fn == R_UNORD ? Value::UNORD : Value::SEQ);
    for(auto& b: src) v.kids.push_back(val::model<T>(b.e));
    if(fn == R_RANGE) { for(auto& k: v.kids) encode(k, flavor(fl), s); } else encode(v, flavor(fl), s);
    {
        Env env(S);
        switch(kind)
        {
        case 0: call(fn, fl, h, p, e); break;
        case 1: call(fn, fl, h, const_cast<T*>(p), const_cast<T*>(e)); break;
        case 2: { typedef It<T, std::random_access_iterator_tag, false> I; I x, y; x.p = p; y.p = e; call(fn, fl, h, x, y); break; }
        case 3: { typedef It<T, std::bidirectional_iterator_tag, false> I; I x, y; x.p = p; y.p = e; call(fn, fl, h, x, y); break; }
        case 4: { typedef It<T, std::forward_iterator_tag, false> I; I x, y; x.p = p; y.p = e; call(fn, fl, h, x, y); break; }
        case 5: { typedef It<T, std::random_access_iterator_tag, true> I; I x, y; x.p = p; y.p = e; call(fn, fl, h, x, y); break; }
        case 6: { typedef It<T, std::input_iterator_tag, true> I; I x, y; x.p = p; y.p = e; call(fn, fl, h, x, y); break; }
        case 7: { typename Once<T>::Src src1{ p, e, T() }; Once<T> x; x.s = &src1; call(fn, fl, h, x, Once<T>()); break; }
        case 8: { std::reverse_iterator<T const*> x(e), y(p); Value w = v; std::reverse(w.kids.begin(), w.kids.end()); s = Sink(a, ref::Hash(a, seed)); if(fn == R_RANGE) { for(auto& k: w.kids) encode(k, flavor(fl), s); } else encode(w, flavor(fl), s); call(fn, fl, h, x, y); break; }
        default: { std::deque<T> d(p, e); call(fn, fl, h, d.begin(), d.end()); }
        }
    }
    S.oracle(2);
    S.ev("ranges %s fn=%d kind=%d flavor=%d n=%zu %s", tname, fn, kind, fl, n, ref::name(a));
    S.cov(sim::fnv(tname, std::strlen(tname)), fn * 16 + kind, fl, std::min<std::size_t>(n, 8));
    if(n > 1) S.nontrivial();
    static char const* const fns[] = { "hash_append_range", "hash_append_sized_range", "hash_append_unordered_range" };
    if(h.msg != s.msg) S.fail("range-message", "%s over %s, iterator kind %d, %zu elements, flavor %s: sent %s, documented %s", fns[fn], tname, kind, n, flavor(fl).name, brief(h.msg).c_str(), brief(s.msg).c_str());
    if(h.digest() != s.h.result()) S.fail("range-digest", "%s over %s, iterator kind %d: digest differs", fns[fn], tname, kind);
}

enum class EB: unsigned char { x };
enum class EI: int { x };
}

SIM_SCENARIO(ranges)
{
    switch(S.strat(12))
    {
    case 0: ranges_of<unsigned char>(S, "unsigned char"); break;
    case 1: ranges_of<char>(S, "char"); break;
    case 2: ranges_of<bool>(S, "bool"); break;
    case 3: ranges_of<int>(S, "int"); break;
    case 4: ranges_of<unsigned long long>(S, "unsigned long long"); break;
    case 5: ranges_of<float>(S, "float"); break;
    case 6: ranges_of<EB>(S, "enum:uchar"); break;
    case 7: ranges_of<EI>(S, "enum:int"); break;
    case 8: ranges_of<std::string>(S, "string"); break;
    case 9: ranges_of<std::pair<int, char>>(S, "pair<int,char>"); break;
    case 10: ranges_of<std::vector<int>>(S, "vector<int>"); break;
    default: ranges_of<int*>(S, "int*");
    }
}

// containers with more elements than narrow counters and small buffers can hold
namespace
{
template<class C> void large_of(Sim& S, char const* what, Value::Kind kind, bool distinct, std::size_t most = 140000)
{
    typedef typename C::value_type V;
    std::size_t n = big::size(S, most); int fl = (int)S.choose(NFLAV); ref::Alg a = (ref::Alg)S.choose(ref::NALG); std::uint64_t seed = S.edgy64();
    if(kind == Value::UNORD && n > 3000) n = 3000 + n % 300;           // every element copies the hash object
    std::vector<big::Elem<V>> unused; (void)unused;
    typedef decltype(big::Elem<V>::make(0)) E; std::vector<Box<E>> bx; std::uint64_t base = S.u64(), step = distinct ? 1 + S.choose(5) : 0; int shape = (int)S.choose(3);
    std::vector<E> v; Value m = Value::group(kind);
    for(std::size_t i = 0; i < n; ++i)
    {
        E e = big::Elem<V>::make(distinct ? i * step : shape == 0 ? 0 : shape == 1 ? sim::mix64(base + i) % 3 : sim::mix64(base + i));
        big::Elem<V>::put(e, m); v.push_back(e);
    }
    int R = 1 + (int)S.choose(2);
    S.ev("large %s n=%zu flavor=%s alg=%s", what, n, flavor(fl).name, ref::name(a));
    Sink s(a, ref::Hash(a, seed)); encode(m, flavor(fl), s); Bytes want = s.h.result();
    for(int r = 0; r < R; ++r)
    {
        C c; big::build(S, c, v); S.step(); S.fault("rebuilt_by_another_history");
        AnyHash h(a, seed); big::Ops<C>::append(fl, h, c); S.oracle(2);
        if(h.msg != s.msg) { std::size_t at = mismatch_at(h.msg, s.msg); S.fail("large-message", "%s with %zu elements, flavor %s: sent %zu bytes, documented %zu; they differ from byte %zu", what, n, flavor(fl).name, h.msg.size(), s.msg.size(), at); }
        if(h.digest() != want) S.fail("large-digest", "%s with %zu elements, flavor %s: the %s digest differs", what, n, flavor(fl).name, ref::name(a));
    }
    S.cov(sim::fnv(what, std::strlen(what)), n < 300 ? n : n & ~255ull, fl); S.nontrivial();
}
}
SIM_SCENARIO(large)
{
    switch(S.strat(20))
    {
    case 0: large_of<std::vector<unsigned char>>(S, "vector<unsigned char>", Value::SEQ, false); break;
    case 1: large_of<std::string>(S, "string", Value::SEQ, false); break;
    case 2: large_of<std::deque<char>>(S, "deque<char>", Value::SEQ, false); break;
    case 3: large_of<std::list<std::uint16_t>>(S, "list<uint16_t>", Value::SEQ, false); break;
    case 4: large_of<std::forward_list<std::uint8_t>>(S, "forward_list<uint8_t>", Value::SEQ, false); break;
    case 5: large_of<std::vector<bool>>(S, "vector<bool>", Value::SEQ, false); break;
    case 6: large_of<std::vector<std::int32_t>>(S, "vector<int32_t>", Value::SEQ, false); break;
    case 7: large_of<std::set<std::uint32_t>>(S, "set<uint32_t>", Value::SEQ, true); break;
    case 8: large_of<std::multiset<std::uint64_t>>(S, "multiset<uint64_t>", Value::SEQ, true); break;
    case 9: large_of<std::map<std::uint32_t, std::uint16_t>>(S, "map<uint32_t,uint16_t>", Value::SEQ, true); break;
    case 10: large_of<std::unordered_set<std::uint32_t>>(S, "unordered_set<uint32_t>", Value::UNORD, true); break;
    case 11: large_of<std::unordered_multiset<std::uint64_t>>(S, "unordered_multiset<uint64_t>", Value::UNORD, true); break;
    case 12: large_of<std::unordered_map<std::uint32_t, std::uint8_t>>(S, "unordered_map<uint32_t,uint8_t>", Value::UNORD, true); break;
    case 13: large_of<boost::unordered_flat_set<std::uint32_t>>(S, "unordered_flat_set<uint32_t>", Value::UNORD, true); break;
    case 14: large_of<boost::container::stable_vector<std::uint8_t>>(S, "stable_vector<uint8_t>", Value::SEQ, false, 6000); break;
    case 15: large_of<boost::container::small_vector<std::uint8_t, 8>>(S, "small_vector<uint8_t,8>", Value::SEQ, false); break;
    case 16: large_of<boost::container::flat_set<std::uint32_t>>(S, "flat_set<uint32_t>", Value::SEQ, true, 5000); break;
    case 17: large_of<std::vector<std::string>>(S, "vector<string>", Value::SEQ, false, 20000); break;
    case 18: large_of<std::deque<std::string>>(S, "deque<string>", Value::SEQ, false, 20000); break;
    default: large_of<std::u16string>(S, "u16string", Value::SEQ, false);
    }
}

// hash_append_size of every integral type and value
SIM_SCENARIO(sizes)
{
    ref::Alg a = (ref::Alg)S.choose(ref::NALG); std::uint64_t seed = S.edgy64();
    AnyHash h(a, seed); Sink s(a, ref::Hash(a, seed));
    int k = 1 + (int)S.choose(4);
    while(k--)
    {
        int fl = (int)S.choose(NFLAV), ty = (int)S.choose(6);
        std::uint64_t x = S.edgy64(), w = 0;
        auto go = [&](auto v) {
            w = (std::uint64_t)v;
            switch(fl) { case 0: h2::hash_append_size(h, h2::default_flavor(), v); break; case 1: h2::hash_append_size(h, h2::little_endian_flavor(), v); break; case 2: h2::hash_append_size(h, h2::big_endian_flavor(), v); break; case 3: h2::hash_append_size(h, small_big(), v); break; default: h2::hash_append_size(h, tiny_little(), v); }
        };
        switch(ty) { case 0: go((std::uint64_t)x); break; case 1: go((std::ptrdiff_t)x); break; case 2: go((unsigned)x); break; case 3: go((unsigned char)x); break; case 4: go((int)x); break; default: go((short)x); }
        s.put(w, flavor(fl).size_width, flavor(fl).big);
        S.ev("size type=%d flavor=%d", ty, fl); S.oracle(); S.cov(ty, fl);
        if(h.msg != s.msg) S.fail("size-message", "hash_append_size type %d flavor %s value %llx: sent %s, documented %s", ty, flavor(fl).name, (unsigned long long)x, brief(h.msg).c_str(), brief(s.msg).c_str());
    }
    S.nontrivial();
}

// ---------------------------------------------------------------- replicated log: replicas with different containers converge to one digest

namespace
{
struct Op { int kind; std::uint64_t pos; int key; std::string s; };

struct Ref                            // the abstract state of the replicated object
{
    std::vector<std::string> seq; std::map<int, std::string> kv;
    void apply(Op const& o)
    {
        switch(o.kind)
        {
        case 0: seq.insert(seq.begin() + (long)(o.pos % (seq.size() + 1)), o.s); break;
        case 1: if(!seq.empty()) seq.erase(seq.begin() + (long)(o.pos % seq.size())); break;
        case 2: if(!seq.empty()) seq[o.pos % seq.size()] = o.s; break;
        case 3: seq.push_back(o.s); break;
        case 4: kv[o.key] = o.s; break;
        case 5: kv.erase(o.key); break;
        default: std::reverse(seq.begin(), seq.end());
        }
    }
    Value seq_model() const { return Codec<std::vector<std::string>>::model(seq); }
    Value kv_model(bool unordered) const { Value v = Codec<std::map<int, std::string>>::model(kv); if(unordered) v.kind = Value::UNORD; return v; }
};

struct Replica
{
    virtual ~Replica() {}
    virtual void apply(Op const&) = 0;
    virtual void restart(Sim&, Ref const& snapshot) = 0;       // rebuilds its containers from a snapshot
    virtual bool unordered() const = 0;
    virtual void append_seq(int fl, AnyHash&) const = 0;
    virtual void append_kv(int fl, AnyHash&) const = 0;
    virtual char const* name() const = 0;
};

template<class T> void append(int fl, AnyHash& h, T const& v)
{
    switch(fl) { case 0: h2::hash_append(h, h2::default_flavor(), v); break; case 1: h2::hash_append(h, h2::little_endian_flavor(), v); break; case 2: h2::hash_append(h, h2::big_endian_flavor(), v); break; case 3: h2::hash_append(h, small_big(), v); break; default: h2::hash_append(h, tiny_little(), v); }
}

// position operations on any sequence, forward lists included
template<class C> struct SeqOps
{
    static void insert(C& c, std::size_t i, std::string const& s) { auto it = c.begin(); std::advance(it, (long)i); c.insert(it, s); }
    static void erase(C& c, std::size_t i) { auto it = c.begin(); std::advance(it, (long)i); c.erase(it); }
    static std::size_t size(C const& c) { return c.size(); }
};
template<class E> struct SeqOps<std::forward_list<E>>
{
    using C = std::forward_list<E>;
    static void insert(C& c, std::size_t i, std::string const& s) { auto it = c.before_begin(); std::advance(it, (long)i); c.insert_after(it, s); }
    static void erase(C& c, std::size_t i) { auto it = c.before_begin(); std::advance(it, (long)i); c.erase_after(it); }
    static std::size_t size(C const& c) { return (std::size_t)std::distance(c.begin(), c.end()); }
};

template<class Q, class M, bool U> struct Rep: Replica
{
    Q q; M m; char const* n;
    Rep(Sim& S, char const* name_): n(name_) { if constexpr(U) m = M(S.choose(100), SH{ S.u64() }); }
    bool unordered() const override { return U; }
    char const* name() const override { return n; }
    void apply(Op const& o) override
    {
        using X = SeqOps<Q>;
        std::size_t z = X::size(q);
        switch(o.kind)
        {
        case 0: X::insert(q, o.pos % (z + 1), o.s); break;
        case 1: if(z) X::erase(q, o.pos % z); break;
        case 2: if(z) { auto it = q.begin(); std::advance(it, (long)(o.pos % z)); *it = o.s; } break;
        case 3: X::insert(q, z, o.s); break;
        case 4: put(o.key, o.s); break;
        case 5: m.erase(o.key); break;
        default: { std::vector<std::string> t(q.begin(), q.end()); std::reverse(t.begin(), t.end()); auto it = q.begin(); for(auto& s: t) *it++ = s; }
        }
    }
    void put(int k, std::string const& s) { auto it = m.find(k); if(it != m.end()) it->second = s; else m.insert(typename M::value_type(k, s)); }
    void restart(Sim& S, Ref const& r) override
    {
        std::vector<std::string> v(r.seq);
        q = Q(v.begin(), v.end());
        if constexpr(U) m = M(S.choose(300), SH{ S.u64() }); else m = M();
        std::vector<std::pair<int, std::string>> k(r.kv.begin(), r.kv.end());
        for(std::size_t i = k.size(); i > 1; --i) std::swap(k[i - 1], k[S.choose(i)]);
        for(auto& e: k) put(e.first, e.second);
    }
    void append_seq(int fl, AnyHash& h) const override { append(fl, h, q); }
    void append_kv(int fl, AnyHash& h) const override { append(fl, h, m); }
};

std::unique_ptr<Replica> make_replica(Sim& S)
{
    typedef std::string s;
    switch(S.choose(8))
    {
    case 0: return std::unique_ptr<Replica>(new Rep<std::vector<s>, std::map<int, s>, false>(S, "vector+map"));
    case 1: return std::unique_ptr<Replica>(new Rep<std::list<s>, umap<int, s>, true>(S, "list+unordered_map"));
    case 2: return std::unique_ptr<Replica>(new Rep<std::deque<s>, boost::container::flat_map<int, s>, false>(S, "deque+flat_map"));
    case 3: return std::unique_ptr<Replica>(new Rep<std::forward_list<s>, bumap<int, s>, true>(S, "forward_list+boost::unordered_map"));
    case 4: return std::unique_ptr<Replica>(new Rep<boost::container::stable_vector<s>, bfmap<int, s>, true>(S, "stable_vector+unordered_flat_map"));
    case 5: return std::unique_ptr<Replica>(new Rep<boost::container::small_vector<s, 3>, umap<int, s>, true>(S, "small_vector+unordered_map"));
    case 6: return std::unique_ptr<Replica>(new Rep<boost::container::deque<s>, std::map<int, s>, false>(S, "boost::deque+map"));
    default: return std::unique_ptr<Replica>(new Rep<std::vector<s>, bfmap<int, s>, true>(S, "vector+unordered_flat_map"));
    }
}
}

SIM_SCENARIO(replog)
{
    int const N = 2 + (int)S.choose(3);
    int nops = 3 + (int)S.choose(30);
    ref::Alg a = (ref::Alg)S.choose(ref::NALG); std::uint64_t seed = S.edgy64(); int fl = (int)S.choose(NFLAV);
    struct Node { std::unique_ptr<Replica> r; std::size_t applied = 0, snap = 0; std::map<std::size_t, Op> pending; bool down = false; std::uint64_t up_at = 0; };
    std::vector<Node> nodes((std::size_t)N);
    for(auto& n: nodes) n.r = make_replica(S);
    std::vector<Op> log; std::vector<Ref> states(1);
    struct Msg { std::uint64_t at; int node; std::size_t idx; };
    std::vector<Msg> net;
    std::uint64_t heal = 20 + S.choose(60);
    unsigned drop = (unsigned)S.choose(50), dup = (unsigned)S.choose(30), crash = (unsigned)S.choose(6);
    S.ev("replog nodes=%d ops=%d flavor=%s alg=%s", N, nops, flavor(fl).name, ref::name(a));

    auto digests = [&](Node& n, int i, char const* when)
    {
        Ref const& st = states[n.applied];
        AnyHash h(a, seed); Sink s(a, ref::Hash(a, seed));
        { Env e(S); n.r->append_seq(fl, h); n.r->append_kv(fl, h); }
        encode(st.seq_model(), flavor(fl), s); encode(st.kv_model(n.r->unordered()), flavor(fl), s);
        S.oracle(2);
        S.ev("digest node=%d applied=%zu %s", i, n.applied, when);
        S.cov(sim::fnv(n.r->name(), std::strlen(n.r->name())), st.seq.size(), st.kv.size(), fl);
        if(h.msg != s.msg) S.fail("replica-message", "replica %s at log index %zu (%zu sequence entries, %zu map entries): message differs from the documented one at byte %zu: %s, documented %s", n.r->name(), n.applied, st.seq.size(), st.kv.size(), mismatch_at(h.msg, s.msg), brief(h.msg).c_str(), brief(s.msg).c_str());
        if(h.digest() != s.h.result()) S.fail("replica-digest", "replica %s at log index %zu: digest differs", n.r->name(), n.applied);
    };

    std::uint64_t limit = heal + (std::uint64_t)nops * 4 + 400;
    std::vector<std::uint64_t> resend((std::size_t)N, 0);
    for(;;)
    {
        S.step();
        std::uint64_t t = S.now(); bool faulty = t < heal;
        if((int)log.size() < nops)
        {
            Op o; o.kind = (int)S.choose(7); o.pos = S.choose(50); o.key = (int)S.choose(6) - 2; if(S.choose(3) == 0) o.key = small_int<int>(S);
            Bytes b = S.data(S.choose(4) ? S.choose(5) : S.choose(40)); o.s.assign(b.begin(), b.end());
            log.push_back(o); states.push_back(states.back()); states.back().apply(o);
            for(int i = 0; i < N; ++i)
            {
                if(faulty && S.choose(100) < drop) { S.fault("message_loss"); continue; }
                net.push_back(Msg{ t + 1 + (faulty ? S.choose(12) : 0), i, log.size() - 1 });
                if(faulty && S.choose(100) < dup) { net.push_back(Msg{ t + 1 + S.choose(20), i, log.size() - 1 }); S.fault("message_duplicate"); }
            }
        }
        for(std::size_t k = 0; k < net.size();)
        {
            if(net[k].at > t) { ++k; continue; }
            Msg m = net[k]; net.erase(net.begin() + (long)k);
            Node& n = nodes[(std::size_t)m.node];
            if(n.down) { S.fault("message_to_down_node"); continue; }
            if(m.idx > n.applied) S.probe("reordered_delivery");
            if(m.idx >= n.applied) n.pending[m.idx] = log[m.idx];
            while(n.pending.count(n.applied)) { n.r->apply(n.pending[n.applied]); n.pending.erase(n.applied); ++n.applied; S.ev("apply node=%d index=%zu", m.node, n.applied); }
        }
        for(int i = 0; i < N; ++i)
        {
            Node& n = nodes[(std::size_t)i];
            if(n.down) { if(t >= n.up_at) { n.down = false; n.r = make_replica(S); n.r->restart(S, states[n.snap]); n.applied = n.snap; n.pending.clear(); S.fault("restart_from_snapshot"); S.ev("restart node=%d from=%zu", i, n.snap); digests(n, i, "after restart"); } continue; }
            if(faulty && S.choose(100) < crash) { n.down = true; n.up_at = t + 1 + S.choose(8); S.fault("crash"); S.ev("crash node=%d", i); continue; }
            if(S.choose(8) == 7) n.snap = n.applied;
            // anti-entropy: ask again for what is missing
            if(n.applied < log.size() && t >= resend[(std::size_t)i]) { resend[(std::size_t)i] = t + 5; for(std::size_t x = n.applied; x < log.size(); ++x) { if(faulty && S.choose(100) < drop) { S.fault("message_loss"); continue; } net.push_back(Msg{ t + 1, i, x }); } }
            if(S.choose(10) == 9) digests(n, i, "running");
        }
        bool done = (int)log.size() == nops;
        for(auto& n: nodes) if(n.down || n.applied < log.size()) done = false;
        if(done) break;
        if(t > limit) broken("replication did not converge");
    }
    for(int i = 0; i < N; ++i) digests(nodes[(std::size_t)i], i, "final");
    S.nontrivial();
}

int main(int argc, char** argv) { return sim::main_(argc, argv, "C05", BUILD_NAME); }
