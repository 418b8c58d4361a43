// C07: a failure inside hash_append propagates cleanly and is retryable.
#include "values.hpp"
#include <new>
#include <stdexcept>
#include <cstdlib>

using sim::Sim; using sim::Bytes;
using namespace val;

namespace
{
// ---------------------------------------------------------------- fault controller

char const* const kinds[] = { "none", "iterator_copy", "iterator_compare", "iterator_increment", "iterator_dereference", "container_begin_end", "container_data_size", "element_copy", "tag_invoke_enter", "tag_invoke_middle", "tag_invoke_exit", "tuple_get", "hash_copy", "hash_update_before", "hash_update_after", "hash_result", "allocation" };
enum Kind { NONE, IT_COPY, IT_CMP, IT_INC, IT_DEREF, BEGIN_END, DATA_SIZE, EL_COPY, TAG_IN, TAG_MID, TAG_OUT, GET, H_COPY, H_UPD0, H_UPD1, H_RESULT, ALLOC };

bool armed = false;                 // library code is running
std::uint64_t ops = 0, target = 0;  // fault points passed, and the one that fails (0: none)
int flavor_of_exception = 0;
Kind fired = NONE;
long live = 0;                      // temporaries and objects owned through the instrumented types

struct Injected { std::uint64_t at; };
struct InjectedRt: std::runtime_error { std::uint64_t at; explicit InjectedRt(std::uint64_t a): std::runtime_error("injected"), at(a) {} };

void point(Kind k)
{
    if(!armed) return;
    if(++ops != target) return;
    fired = k;
    if(k == ALLOC) throw std::bad_alloc();
    armed = false;                  // building the exception is not part of the system
    switch(flavor_of_exception)
    {
    case 0: { std::uint64_t a = ops; armed = true; throw Injected{ a }; }
    case 1: { InjectedRt e(ops); armed = true; throw e; }
    case 2: { armed = true; throw (std::uint64_t)ops; }
    default: { armed = true; throw std::bad_alloc(); }
    }
}
struct Off { bool was; Off(): was(armed) { armed = false; } ~Off() { armed = was; } };      // harness code runs

struct Live { Live() { ++live; } Live(Live const&) { ++live; } Live& operator=(Live const&) { return *this; } ~Live() { --live; } };

// ---------------------------------------------------------------- a hash algorithm that can fail

struct FH
{
    std::unique_ptr<AnyHash> h; Live l;
    using result_type = AnyHash::result_type;
    FH() { Off o; h.reset(new AnyHash); }
    explicit FH(std::uint64_t s) { Off o; h.reset(new AnyHash(s)); }
    FH(unsigned char const* p, std::size_t n) { Off o; h.reset(new AnyHash(p, n)); }
    FH(ref::Alg a, std::uint64_t s) { Off o; h.reset(new AnyHash(a, s)); }
    FH(FH const& r) { point(H_COPY); Off o; h.reset(new AnyHash(*r.h)); }
    FH& operator=(FH const& r) { point(H_COPY); Off o; *h = *r.h; return *this; }
    ~FH() { Off o; h.reset(); }
    void update(void const* p, std::size_t n) { point(H_UPD0); { Off o; h->update(p, n); } point(H_UPD1); }
    void update(unsigned char const* p, std::size_t n) { point(H_UPD0); { Off o; h->update(p, n); } point(H_UPD1); }
    result_type result() { point(H_RESULT); Off o; return h->result(); }
};

// ---------------------------------------------------------------- values that can fail

struct FElem
{
    int v = 0; std::string s; Live l;
    FElem() {}
    FElem(FElem const& r): v(r.v), s((point(EL_COPY), r.s)) {}
    FElem& operator=(FElem const&) = default;
    template<class Hash, class Flavor> friend void tag_invoke(h2::hash_append_tag const&, Hash& h, Flavor const& f, FElem const& e)
    {
        point(TAG_IN);
        h2::hash_append(h, f, e.v);
        point(TAG_MID);
        std::string tmp(e.s + "a tail that does not fit a small buffer");      // an allocation of the user's
        h2::hash_append(h, f, tmp);
        point(TAG_OUT);
    }
};

template<class T, class Cat, bool ByValue> struct FIter
{
    using value_type = T; using difference_type = std::ptrdiff_t; using iterator_category = Cat;
    using reference = typename std::conditional<ByValue, T, T const&>::type; using pointer = T const*;
    T const* p = nullptr; Live l;
    FIter() {}
    explicit FIter(T const* q): p(q) {}
    FIter(FIter const& r): p((point(IT_COPY), r.p)) {}
    FIter& operator=(FIter const&) = default;
    reference operator*() const { point(IT_DEREF); return *p; }
    T const* operator->() const { return p; }
    FIter& operator++() { point(IT_INC); ++p; return *this; }
    FIter operator++(int) { FIter t(*this); ++*this; return t; }
    FIter& operator--() { --p; return *this; }
    FIter& operator+=(std::ptrdiff_t n) { p += n; return *this; }
    friend FIter operator+(FIter const& a, std::ptrdiff_t n) { FIter t(a); t.p += n; return t; }
    friend std::ptrdiff_t operator-(FIter const& a, FIter const& b) { point(IT_CMP); return a.p - b.p; }
    friend bool operator==(FIter const& a, FIter const& b) { point(IT_CMP); return a.p == b.p; }
    friend bool operator!=(FIter const& a, FIter const& b) { point(IT_CMP); return a.p != b.p; }
};

template<class T, class Cat, bool ByValue = false> struct FSeq        // a sized range
{
    std::vector<T> v;
    using value_type = T; using iterator = FIter<T, Cat, ByValue>; using const_iterator = iterator;
    iterator begin() const { point(BEGIN_END); return iterator(v.data()); }
    iterator end() const { point(BEGIN_END); return iterator(v.data() + v.size()); }
    std::size_t size() const { return v.size(); }
};
template<class T> struct FUno: FSeq<T, std::forward_iterator_tag> { using hasher = void; };
template<class T> struct FView                                         // contiguous
{
    std::vector<T> v;
    using value_type = T; using iterator = T const*; using const_iterator = T const*;
    T const* begin() const { return v.data(); } T const* end() const { return v.data() + v.size(); }
    T const* data() const { point(DATA_SIZE); return v.data(); } std::size_t size() const { point(DATA_SIZE); return v.size(); }
};
template<class T> struct FFix: FSeq<T, std::bidirectional_iterator_tag> {};   // constant size, not contiguous
template<class T> struct FTup { T a, b; };                             // tuple-like
template<std::size_t I, class T> T const& get(FTup<T> const& t) { point(GET); return I ? t.b : t.a; }

struct FObj { FElem e; FSeq<FElem, std::forward_iterator_tag> s; FUno<FElem> u; int n; };
BOOST_DESCRIBE_STRUCT(FObj, (), (e, s, u, n))
struct FDerived: FObj { FView<FElem> w; };
BOOST_DESCRIBE_STRUCT(FDerived, (FObj), (w))
}
namespace std
{
template<class T> struct tuple_size<FFix<T>>: integral_constant<size_t, 3> {};
template<class T> struct tuple_size<FTup<T>>: integral_constant<size_t, 2> {};
template<size_t I, class T> struct tuple_element<I, FTup<T>> { using type = T; };
}
namespace
{
// generators and models
template<class T> struct G;
template<> struct G<int> { static void gen(Sim& S, int& v) { v = small_int<int>(S); } static Value model(int const& v) { return Value::integer(4, (std::uint64_t)v); } };
template<> struct G<char> { static void gen(Sim& S, char& v) { v = (char)S.choose(256); } static Value model(char const& v) { return Value::integer(1, (unsigned char)v); } };
Value str(std::string const& s) { return Codec<std::string>::model(s); }
template<> struct G<FElem>
{
    static void gen(Sim& S, FElem& e) { e.v = (int)S.choose(100); e.s = std::string(S.choose(5), 'x'); }
    static Value model(FElem const& e) { Value v = Value::group(Value::FIX); v.kids.push_back(Value::integer(4, (std::uint64_t)e.v)); v.kids.push_back(str(e.s + "a tail that does not fit a small buffer")); return v; }
};
template<class C> void gen_many(Sim& S, C& c, std::size_t n) { using T = typename C::value_type; for(std::size_t i = 0; i < n; ++i) { c.emplace_back(); G<T>::gen(S, c.back()); } }
template<class C> Value model_many(C const& c, Value::Kind k) { Value v = Value::group(k); for(auto& e: c) v.kids.push_back(G<typename C::value_type>::model(e)); return v; }
template<class T, class Cat, bool B> struct G<FSeq<T, Cat, B>> { static void gen(Sim& S, FSeq<T, Cat, B>& c) { gen_many(S, c.v, S.choose(5)); } static Value model(FSeq<T, Cat, B> const& c) { return model_many(c.v, Value::SEQ); } };
template<class T> struct G<FUno<T>> { static void gen(Sim& S, FUno<T>& c) { gen_many(S, c.v, S.choose(4)); } static Value model(FUno<T> const& c) { return model_many(c.v, Value::UNORD); } };
template<class T> struct G<FView<T>> { static void gen(Sim& S, FView<T>& c) { gen_many(S, c.v, S.choose(5)); } static Value model(FView<T> const& c) { return model_many(c.v, Value::SEQ); } };
template<class T> struct G<FFix<T>> { static void gen(Sim& S, FFix<T>& c) { gen_many(S, c.v, 3); } static Value model(FFix<T> const& c) { return model_many(c.v, Value::FIX); } };
template<class T> struct G<FTup<T>> { static void gen(Sim& S, FTup<T>& c) { G<T>::gen(S, c.a); G<T>::gen(S, c.b); } static Value model(FTup<T> const& c) { Value v = Value::group(Value::FIX); v.kids.push_back(G<T>::model(c.a)); v.kids.push_back(G<T>::model(c.b)); return v; } };
template<> struct G<FObj>
{
    static void gen(Sim& S, FObj& o) { G<FElem>::gen(S, o.e); G<decltype(o.s)>::gen(S, o.s); G<decltype(o.u)>::gen(S, o.u); o.n = (int)S.choose(9); }
    static Value model(FObj const& o) { Value v = Value::group(Value::FIX); v.kids = { G<FElem>::model(o.e), G<plain<decltype(o.s)>>::model(o.s), G<FUno<FElem>>::model(o.u), G<int>::model(o.n) }; return v; }
};
template<> struct G<FDerived>
{
    static void gen(Sim& S, FDerived& o) { G<FObj>::gen(S, o); G<FView<FElem>>::gen(S, o.w); }
    static Value model(FDerived const& o) { Value v = Value::group(Value::FIX); v.kids = { G<FObj>::model(o), G<FView<FElem>>::model(o.w) }; return v; }
};
template<class T> struct G<std::vector<T>> { static void gen(Sim& S, std::vector<T>& c) { gen_many(S, c, S.choose(5)); } static Value model(std::vector<T> const& c) { return model_many(c, Value::SEQ); } };
template<class T> struct G<std::list<T>> { static void gen(Sim& S, std::list<T>& c) { gen_many(S, c, S.choose(5)); } static Value model(std::list<T> const& c) { return model_many(c, Value::SEQ); } };
template<class T> struct G<std::deque<T>> { static void gen(Sim& S, std::deque<T>& c) { gen_many(S, c, S.choose(5)); } static Value model(std::deque<T> const& c) { return model_many(c, Value::SEQ); } };
template<class T, std::size_t N> struct G<std::array<T, N>> { static void gen(Sim& S, std::array<T, N>& c) { for(auto& e: c) G<T>::gen(S, e); } static Value model(std::array<T, N> const& c) { return model_many(c, Value::FIX); } };
template<class A, class B> struct G<std::pair<A, B>> { static void gen(Sim& S, std::pair<A, B>& p) { G<A>::gen(S, p.first); G<B>::gen(S, p.second); } static Value model(std::pair<A, B> const& p) { Value v = Value::group(Value::FIX); v.kids = { G<A>::model(p.first), G<B>::model(p.second) }; return v; } };
template<class A, class B, class C> struct G<std::tuple<A, B, C>> { static void gen(Sim& S, std::tuple<A, B, C>& p) { G<A>::gen(S, std::get<0>(p)); G<B>::gen(S, std::get<1>(p)); G<C>::gen(S, std::get<2>(p)); } static Value model(std::tuple<A, B, C> const& p) { Value v = Value::group(Value::FIX); v.kids = { G<A>::model(std::get<0>(p)), G<B>::model(std::get<1>(p)), G<C>::model(std::get<2>(p)) }; return v; } };
template<class T> struct G<std::map<int, T>> { static void gen(Sim& S, std::map<int, T>& m) { int n = (int)S.choose(4); for(int i = 0; i < n; ++i) G<T>::gen(S, m[small_int<int>(S)]); } static Value model(std::map<int, T> const& m) { Value v = Value::group(Value::SEQ); for(auto& e: m) { Value p = Value::group(Value::FIX); p.kids = { G<int>::model(e.first), G<T>::model(e.second) }; v.kids.push_back(p); } return v; } };
template<class T> struct G<umap<int, T>> { static void gen(Sim& S, umap<int, T>& m) { int n = (int)S.choose(4); for(int i = 0; i < n; ++i) G<T>::gen(S, m[small_int<int>(S)]); } static Value model(umap<int, T> const& m) { Value v = Value::group(Value::UNORD); for(auto& e: m) { Value p = Value::group(Value::FIX); p.kids = { G<int>::model(e.first), G<T>::model(e.second) }; v.kids.push_back(p); } return v; } };

struct Item
{
    virtual ~Item() {}
    virtual Value model() const = 0;
    virtual void append(int fl, FH& h) const = 0;
    virtual void* addr() = 0; virtual std::size_t size() const = 0;
    char const* name;
};
template<class F, class T> void app1(FH& h, T const& v) { F f; h2::hash_append(h, f, v); }
template<class T> struct ItemT: Item
{
    T v;
    ItemT(Sim& S, char const* n) { name = n; G<T>::gen(S, v); }
    Value model() const override { return G<T>::model(v); }
    void append(int fl, FH& h) const override { switch(fl) { case 0: app1<h2::default_flavor>(h, v); break; case 1: app1<h2::little_endian_flavor>(h, v); break; case 2: app1<h2::big_endian_flavor>(h, v); break; case 3: app1<small_big>(h, v); break; default: app1<tiny_little>(h, v); } }
    void* addr() override { return &v; } std::size_t size() const override { return sizeof v; }
};
using fwd = std::forward_iterator_tag; using inp = std::input_iterator_tag; using ran = std::random_access_iterator_tag;
std::unique_ptr<Item> make_item(Sim& S, std::uint64_t k)
{
#define IT(...) return std::unique_ptr<Item>(new ItemT<__VA_ARGS__>(S, #__VA_ARGS__))
    switch(k)
    {
    case 0: IT(FElem);
    case 1: IT(FSeq<FElem, fwd>);
    case 2: IT(FSeq<int, fwd>);
    case 3: IT(FSeq<FElem, ran>);
    case 4: IT(FSeq<char, ran, true>);
    case 5: IT(FSeq<FElem, inp, true>);
    case 6: IT(FUno<int>);
    case 7: IT(FUno<FElem>);
    case 8: IT(FUno<FUno<FElem>>);
    case 9: IT(FView<FElem>);
    case 10: IT(FView<int>);
    case 11: IT(FFix<FElem>);
    case 12: IT(FFix<int>);
    case 13: IT(FTup<FElem>);
    case 14: IT(FTup<FUno<int>>);
    case 15: IT(FObj);
    case 16: IT(FDerived);
    case 17: IT(std::vector<FElem>);
    case 18: IT(std::list<FUno<FElem>>);
    case 19: IT(std::deque<FSeq<int, fwd>>);
    case 20: IT(std::array<FElem, 3>);
    case 21: IT(std::pair<FUno<FElem>, FSeq<FElem, fwd>>);
    case 22: IT(std::tuple<FElem, std::vector<FElem>, FUno<int>>);
    case 23: IT(std::map<int, FElem>);
    case 24: IT(umap<int, FElem>);
    case 25: IT(std::vector<std::vector<FElem>>);
    case 26: IT(FUno<std::pair<int, FElem>>);
    default: IT(umap<int, FUno<FElem>>);
    }
#undef IT
}
enum { NITEM = 28 };

// one guarded call; returns the kind of exception that came out: 0 none, 1 the injected one, 2 something else
int attempt(Item const& it, int fl, FH& h)
{
    fired = NONE;
    try
    {
        armed = true;
        it.append(fl, h);
        armed = false;
        return 0;
    }
    catch(Injected const& e) { armed = false; return fired != NONE && fired != ALLOC && flavor_of_exception == 0 && e.at == target ? 1 : 2; }
    catch(InjectedRt const& e) { armed = false; return fired != NONE && fired != ALLOC && flavor_of_exception == 1 && e.at == target ? 1 : 2; }
    catch(std::uint64_t e) { armed = false; return fired != NONE && fired != ALLOC && flavor_of_exception == 2 && e == target ? 1 : 2; }
    catch(std::bad_alloc const&) { armed = false; return fired == ALLOC || (fired != NONE && flavor_of_exception == 3) ? 1 : 2; }
    catch(...) { armed = false; return 2; }
}
}

// allocations made while library or user code runs are fault points as well
void* operator new(std::size_t n) { point(ALLOC); if(void* p = std::malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }

// a session appends a list of values; every failed append is retried from the copy saved before it
SIM_SCENARIO(retry)
{
    armed = false; target = 0;
    ref::Alg a = (ref::Alg)S.choose(ref::NALG); std::uint64_t seed = S.edgy64(); int fl = (int)S.choose(NFLAV);
    std::uint64_t first = S.strat(NITEM);
    int n = 1 + (int)S.choose(3);
    std::vector<std::unique_ptr<Item>> items;
    for(int i = 0; i < n; ++i) items.push_back(make_item(S, i ? S.choose(NITEM) : first));
    S.ev("session %s items=%d flavor=%s", ref::name(a), n, flavor(fl).name);
    long base = live;
    {
    FH h(a, seed); Sink s(a, ref::Hash(a, seed));
    long floor = live;
    for(auto& it: items)
    {
        Value m = it->model(); std::string canon = m.canon();
        Bytes image((unsigned char*)it->addr(), (unsigned char*)it->addr() + it->size());
        Bytes before = h.h->msg;
        // an undisturbed dry run on a copy tells how many fault points there are
        std::uint64_t total;
        Bytes full;
        {
            FH dry(h); target = 0; ops = 0; flavor_of_exception = 0;
            int r = attempt(*it, fl, dry);
            total = ops; full = dry.h->msg;
            if(r) S.fail("spurious-exception", "%s: hash_append threw although nothing failed", it->name);
        }
        if(live != floor) S.fail("leak", "%s: %ld temporaries are alive after an undisturbed call", it->name, live - floor);
        encode(m, flavor(fl), s);
        S.oracle(2);
        if(full != s.msg) S.fail("message", "%s: undisturbed message differs from the documented one", it->name);
        int tries = 0, budget = 1 + (int)S.choose(4);
        for(;;)
        {
            S.step();
            bool inject = tries < budget && total && S.choose(8) != 0;
            target = inject ? 1 + S.choose(total) : 0; ops = 0; flavor_of_exception = (int)S.choose(4);
            FH saved(h);
            int r = attempt(*it, fl, h);
            S.oracle(4);
            S.ev("append %s try=%d points=%llu target=%llu fired=%s", it->name, tries, (unsigned long long)total, (unsigned long long)target, kinds[fired]);
            if(fired != NONE) { S.fault(kinds[fired]); S.nontrivial(); S.cov(sim::fnv(it->name, std::strlen(it->name)), fired, flavor_of_exception, std::min<std::uint64_t>(target, 60)); }
            if(live != floor + 1) S.fail("leak", "%s: %ld temporaries were left behind by a failing %s", it->name, live - floor - 1, kinds[fired]);
            if(it->model().canon() != canon || std::memcmp(image.data(), it->addr(), image.size())) S.fail("value-modified", "%s: the value changed during hash_append", it->name);
            Bytes const& got = h.h->msg;
            if(r == 2) S.fail("exception-replaced", "%s: a failing %s surfaced as another exception", it->name, kinds[fired]);
            if(fired != NONE && r == 0) S.fail("exception-swallowed", "%s: a failing %s did not reach the caller", it->name, kinds[fired]);
            if(r == 0)
            {
                if(got != full) S.fail("retry-message", "%s: message after %d retries differs from the undisturbed one (%zu and %zu bytes)", it->name, tries, got.size(), full.size());
                break;
            }
            if(got.size() > full.size() || !std::equal(got.begin(), got.end(), full.begin()) || got.size() < before.size())
                S.fail("not-a-prefix", "%s: after a failing %s (fault point %llu of %llu) the hash object has received %zu bytes that are no prefix of the message", it->name, kinds[fired], (unsigned long long)target, (unsigned long long)total, got.size() - before.size());
            if(got.size() > before.size()) S.probe("failed_after_partial_message");
            h = saved; ++tries; S.probe("retried");
        }
    }
    target = 0;
    Bytes d = h.h->digest(), w = s.h.result(); S.oracle();
    if(d != w) S.fail("retry-digest", "digest after retries is %s, undisturbed %s", sim::hex(d).c_str(), sim::hex(w).c_str());
    }
    items.clear();
    (void)base;
}

int main(int argc, char** argv) { return sim::main_(argc, argv, "C07", BUILD_NAME); }
