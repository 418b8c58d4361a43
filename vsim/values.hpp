// Values of many types, with generators, equality-preserving rebuilds, mutations, and an independent
// model of each value from which a reference peer derives the documented message.
#pragma once
#include "core.hpp"
#include "ref.hpp"
#include "algs.hpp"
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/digest.hpp>
#include <boost/describe.hpp>
#include <boost/array.hpp>
#include <boost/container/flat_map.hpp>
#include <boost/container/flat_set.hpp>
#include <boost/container/small_vector.hpp>
#include <boost/container/stable_vector.hpp>
#include <boost/container/deque.hpp>
#include <boost/unordered_map.hpp>
#include <boost/unordered_set.hpp>
#include <boost/unordered/unordered_flat_map.hpp>
#include <boost/unordered/unordered_flat_set.hpp>
#include <unistd.h>
#include <cstdio>
#include <algorithm>
#include <array>
#include <cstring>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace val
{
using sim::Sim; using sim::Bytes;
namespace h2 = boost::hash2;

// the harness itself is wrong: never reported as a violation
[[noreturn]] inline void broken(char const* what) { std::fprintf(stderr, "harness: %s\n", what); _exit(70); }

// ---------------------------------------------------------------- model

struct Value
{
    enum Kind { INT, FLT, SEQ, FIX, UNORD } kind = INT;
    unsigned width = 0;
    std::uint64_t n = 0;
    std::vector<Value> kids;

    static Value integer(unsigned w, std::uint64_t n) { Value v; v.kind = INT; v.width = w; v.n = w == 8 ? n : n & ((1ull << (8 * w)) - 1); return v; }
    static Value flt(unsigned w, std::uint64_t bits) { Value v = integer(w, bits); v.kind = FLT; return v; }
    static Value group(Kind k) { Value v; v.kind = k; return v; }

    // equal strings exactly when the values are equal
    void canon(std::string& s) const
    {
        s.push_back("ifsxu"[kind]); s.push_back((char)width);
        if(kind <= FLT)
        {
            std::uint64_t x = n;
            if(kind == FLT && x == (width == 4 ? 0x80000000ull : 0x8000000000000000ull)) x = 0;
            s.append((char const*)&x, 8);
            return;
        }
        std::uint64_t c = kids.size(); s.append((char const*)&c, 8);
        if(kind == UNORD)
        {
            std::vector<std::string> t;
            for(Value const& k: kids) { t.emplace_back(); k.canon(t.back()); }
            std::sort(t.begin(), t.end());
            for(auto& x: t) s += x;
        }
        else for(Value const& k: kids) k.canon(s);
    }
    std::string canon() const { std::string s; canon(s); return s; }
    std::size_t leaves() const { if(kind <= FLT) return 1; std::size_t c = 1; for(auto& k: kids) c += k.leaves(); return c; }
};

struct Fl { bool big; unsigned size_width; char const* name; };

// reference peer: the documented message, and the digest of the reference algorithm
struct Sink
{
    ref::Alg a; ref::Hash h; Bytes msg;
    Sink(ref::Alg a_, ref::Hash const& h_): a(a_), h(h_) {}
    void put(std::uint64_t n, unsigned w, bool big)
    {
        unsigned char t[8];
        for(unsigned i = 0; i < w; ++i) t[big ? w - 1 - i : i] = (unsigned char)(n >> (8 * i));
        h.update(t, w); msg.insert(msg.end(), t, t + w);
    }
};

inline void encode(Value const& v, Fl const& f, Sink& s)
{
    switch(v.kind)
    {
    case Value::INT: s.put(v.n, v.width, f.big); break;
    case Value::FLT: s.put(v.n == (v.width == 4 ? 0x80000000ull : 0x8000000000000000ull) ? 0 : v.n, v.width, f.big); break;
    case Value::FIX: if(v.kids.empty()) s.put(0, 1, false); else for(auto& k: v.kids) encode(k, f, s); break;
    case Value::SEQ: for(auto& k: v.kids) encode(k, f, s); s.put(v.kids.size(), f.size_width, f.big); break;
    case Value::UNORD:
        {
            std::uint64_t w = 0;
            for(auto& k: v.kids) { Sink t(s.a, s.h); encode(k, f, t); w += ref::integral64(s.a, t.h.result()); }
            s.put(w, 8, f.big); s.put(v.kids.size(), f.size_width, f.big);
        }
    }
}

// ---------------------------------------------------------------- the real algorithms, type-erased, recording the message

class AnyHash
{
    std::unique_ptr<algs::Obj> o_;
public:
    struct result_type
    {
        typedef unsigned char value_type; typedef unsigned char* iterator; typedef unsigned char const* const_iterator; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type; typedef unsigned char& reference; typedef unsigned char const& const_reference;
        unsigned char d[8] = {};
        static constexpr std::size_t size() { return 8; }
        static constexpr std::size_t max_size() { return 8; }
        constexpr unsigned char* data() { return d; } constexpr unsigned char const* data() const { return d; }
        constexpr unsigned char* begin() { return d; } constexpr unsigned char const* begin() const { return d; }
        constexpr unsigned char* end() { return d + 8; } constexpr unsigned char const* end() const { return d + 8; }
        constexpr unsigned char& operator[](std::size_t i) { return d[i]; } constexpr unsigned char operator[](std::size_t i) const { return d[i]; }
        constexpr unsigned char front() const { return d[0]; } constexpr unsigned char back() const { return d[7]; }
        friend bool operator==(result_type const& a, result_type const& b) { return std::memcmp(a.d, b.d, 8) == 0; }
        friend bool operator!=(result_type const& a, result_type const& b) { return !(a == b); }
    };
    Bytes msg; std::size_t calls = 0;

    AnyHash() { init(); o_->def(ref::XXH64); }
    explicit AnyHash(std::uint64_t s) { init(); o_->seed(ref::XXH64, s); }
    AnyHash(unsigned char const* p, std::size_t n) { init(); o_->bytes(ref::XXH64, p, n); }
    AnyHash(ref::Alg a, std::uint64_t seed) { init(); o_->seed(a, seed); }
    AnyHash(AnyHash const& r): msg(r.msg), calls(r.calls) { init(); o_->copy(*r.o_); }
    AnyHash(AnyHash&&) = default;
    AnyHash& operator=(AnyHash const& r) { if(this != &r) { o_->copy(*r.o_); msg = r.msg; calls = r.calls; } return *this; }
    AnyHash& operator=(AnyHash&&) = default;

    void update(void const* p, std::size_t n) { ++calls; msg.insert(msg.end(), (unsigned char const*)p, (unsigned char const*)p + n); o_->update(p, n, false); }
    void update(unsigned char const* p, std::size_t n) { ++calls; msg.insert(msg.end(), p, p + n); o_->update(p, n, true); }
    result_type result() { result_type r; std::uint64_t x = o_->result64(); for(int i = 0; i < 8; ++i) r.d[i] = (unsigned char)(x >> (8 * i)); return r; }
    Bytes digest() { return o_->result(); }
private:
    void init() { o_.reset(new algs::Obj); o_->dirty(0x5c); }
};

// flavors
struct small_big { using size_type = std::uint32_t; static constexpr auto byte_order = h2::endian::big; };
struct tiny_little { using size_type = std::uint16_t; static constexpr auto byte_order = h2::endian::little; };
enum { NFLAV = 5 };
inline Fl const& flavor(int i)
{
    static Fl const t[NFLAV] = { { false, 8, "default" }, { false, 8, "little" }, { true, 8, "big" }, { true, 4, "u32big" }, { false, 2, "u16little" } };
    return t[i];
}

// direct instantiations, to see the library use the algorithms' own result types
enum { NDIRECT = 4 };
inline ref::Alg direct_alg(int i) { static ref::Alg const t[NDIRECT] = { ref::FNV32, ref::XXH64, ref::SHA256, ref::SIP32 }; return t[i]; }
template<class H, class F, class T> Bytes direct_one(std::uint64_t seed, T const& v)
{
    H h(seed); h2::hash_append(h, F(), v);
    auto r = h.result();
    unsigned char t[64]; algs::out(r, t);
    return Bytes(t, t + sizeof(r));
}
template<class T> Bytes direct(int i, std::uint64_t seed, T const& v)
{
    switch(i)
    {
    case 0: return direct_one<h2::fnv1a_32, h2::default_flavor>(seed, v);
    case 1: return direct_one<h2::xxhash_64, h2::default_flavor>(seed, v);
    case 2: return direct_one<h2::sha2_256, h2::big_endian_flavor>(seed, v);
    default: return direct_one<h2::siphash_32, h2::little_endian_flavor>(seed, v);
    }
}
inline int direct_flavor(int i) { static int const t[NDIRECT] = { 0, 0, 2, 1 }; return t[i]; }

// ---------------------------------------------------------------- codecs

template<class T, class = void> struct Codec;

template<class T> Value model(T const& v) { return Codec<T>::model(v); }

// small domains are common so that duplicates and neighbours occur
template<class I> I small_int(Sim& S)
{
    switch(S.choose(4))
    {
    case 0: return (I)S.choose(4);
    case 1: return (I)(0 - S.choose(4));
    case 2: return (I)(1ull << S.choose(8 * sizeof(I)));
    default: return (I)S.edgy64();
    }
}

template<class T> struct Codec<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type>
{
    static void gen(Sim& S, T& v) { v = small_int<T>(S); }
    static void rebuild(Sim&, T const& s, T& d) { d = s; }
    static bool mutate(Sim& S, T& v)
    {
        using U = typename std::make_unsigned<T>::type;
        switch(S.choose(3)) { case 0: v = (T)((U)v ^ ((U)1 << S.choose(8 * sizeof(T)))); break; case 1: v = (T)((U)v + 1u); break; default: v = (T)(0u - (U)v); }
        return true;
    }
    static Value model(T const& v) { return Value::integer(sizeof(T), (std::uint64_t)v); }
};

template<> struct Codec<bool>
{
    static void gen(Sim& S, bool& v) { v = S.choose(2); }
    static void rebuild(Sim&, bool const& s, bool& d) { d = s; }
    static bool mutate(Sim&, bool& v) { v = !v; return true; }
    static Value model(bool const& v) { return Value::integer(1, v); }
};

template<class T> struct Codec<T, typename std::enable_if<std::is_enum<T>::value>::type>
{
    using U = typename std::underlying_type<T>::type;
    static void gen(Sim& S, T& v) { U u; Codec<U>::gen(S, u); v = (T)u; }
    static void rebuild(Sim&, T const& s, T& d) { d = s; }
    static bool mutate(Sim& S, T& v) { U u = (U)v; Codec<U>::mutate(S, u); v = (T)u; return true; }
    static Value model(T const& v) { return Value::integer(sizeof(T), (std::uint64_t)(U)v); }
};

template<class T> struct Codec<T*>
{
    static void gen(Sim& S, T*& v) { v = reinterpret_cast<T*>((std::uintptr_t)(S.choose(3) ? S.edgy64() & ~15ull : 0)); }
    static void rebuild(Sim&, T* const& s, T*& d) { d = s; }
    static bool mutate(Sim& S, T*& v) { v = reinterpret_cast<T*>((std::uintptr_t)v ^ ((std::uintptr_t)16 << S.choose(50))); return true; }
    static Value model(T* const& v) { return Value::integer(8, (std::uint64_t)(std::uintptr_t)v); }
};

template<> struct Codec<std::nullptr_t>
{
    static void gen(Sim&, std::nullptr_t& v) { v = nullptr; }
    static void rebuild(Sim&, std::nullptr_t const&, std::nullptr_t& d) { d = nullptr; }
    static bool mutate(Sim&, std::nullptr_t&) { return false; }
    static Value model(std::nullptr_t const&) { return Value::integer(8, 0); }
};

template<class F, class U> struct FloatCodec
{
    static U bits(F const& f) { U u; std::memcpy(&u, &f, sizeof u); return u; }
    static void set(F& f, U u) { std::memcpy(&f, &u, sizeof f); }
    static U const top = (U)1 << (8 * sizeof(U) - 1);
    static U const expo = sizeof(U) == 4 ? (U)0x7f800000u : (U)0x7ff0000000000000ull;
    static bool nan(U u) { return (u & ~top) > expo; }
    static void gen(Sim& S, F& v)
    {
        U u;
        switch(S.choose(8))
        {
        case 0: u = 0; break;
        case 1: u = top; break;                                     // -0
        case 2: u = S.choose(3) + 1; break;                         // smallest denormals
        case 3: u = top | (U)(S.choose(3) + 1); break;
        case 4: u = expo | (S.choose(2) ? top : 0); break;          // infinities
        case 5: { F f = (F)((double)(std::int64_t)S.choose(9) - 4); u = bits(f); if(u == top) u = 0; break; }
        case 6: u = (U)S.u64() & (expo >> 1 | (expo - 1)); break;
        default: u = (U)S.edgy64();
        }
        if(nan(u)) u &= ~(expo & (~expo << 1 | expo)) | (expo >> 1);
        if(nan(u)) u = 1;
        set(v, u);
    }
    static void rebuild(Sim& S, F const& s, F& d)
    {
        U u = bits(s);
        if((u & ~top) == 0) { u = S.choose(2) ? top : 0; S.probe("zero_sign_choice"); }
        set(d, u);
    }
    static bool mutate(Sim& S, F& v)
    {
        U u = bits(v);
        switch(S.choose(3)) { case 0: u ^= top; break; case 1: u ^= (U)1 << S.choose(8 * sizeof(U)); break; default: u += 1; }
        if(nan(u)) u = expo;
        set(v, u);
        return true;
    }
    static Value model(F const& v) { return Value::flt(sizeof(F), bits(v)); }
};
template<> struct Codec<float>: FloatCodec<float, std::uint32_t> {};
template<> struct Codec<double>: FloatCodec<double, std::uint64_t> {};

// lengths: mostly small, sometimes longer than any small buffer
// (once in a while the outermost container of a value is many times longer)
inline std::size_t& scale() { static std::size_t s = 1; return s; }
inline void draw_scale(Sim& S, std::uint64_t one_in, std::size_t max = 60) { scale() = S.choose(one_in) == one_in - 1 ? 2 + S.choose(max) : 1; }
enum { BULKY = 60 };           // containers of more elements than this cost one entry of the tape
inline std::size_t gen_len(Sim& S)
{
    std::size_t s = scale(); scale() = 1; std::size_t n;
    switch(S.choose(8)) { case 0: n = 0; break; case 7: n = S.choose(60); break; default: n = S.choose(6); }
    if(s > 1) { n = n * s + S.choose(s); S.probe("long_container"); }
    return n;
}

// ---- fixed groups
template<class Tuple, std::size_t... J> void tuple_gen(Sim& S, Tuple t, std::index_sequence<J...>) { (Codec<typename std::decay<typename std::tuple_element<J, Tuple>::type>::type>::gen(S, std::get<J>(t)), ...); }

template<class T> struct Plain { using type = typename std::remove_cv<typename std::remove_reference<T>::type>::type; };
template<class T> using plain = typename Plain<T>::type;

// codec over a tie of references to the parts of a fixed-size object; Derived provides tie(T&) and ctie(T const&)
template<class T, class Derived> struct TiedCodec
{
    template<class Tup, std::size_t... J> static void gen_(Sim& S, Tup t, std::index_sequence<J...>) { (void)S; (Codec<plain<decltype(std::get<J>(t))>>::gen(S, std::get<J>(t)), ...); }
    template<class A, class B, std::size_t... J> static void reb_(Sim& S, A a, B b, std::index_sequence<J...>) { (void)S; (Codec<plain<decltype(std::get<J>(b))>>::rebuild(S, std::get<J>(a), std::get<J>(b)), ...); }
    template<class A, std::size_t... J> static bool mut_(Sim& S, A a, std::size_t k, std::index_sequence<J...>) { (void)S; (void)k; bool r = false; ((J == k ? (void)(r = Codec<plain<decltype(std::get<J>(a))>>::mutate(S, std::get<J>(a))) : (void)0), ...); return r; }
    template<class A, std::size_t... J> static Value mod_(A a, std::index_sequence<J...>) { Value v = Value::group(Value::FIX); (v.kids.push_back(Codec<plain<decltype(std::get<J>(a))>>::model(std::get<J>(a))), ...); return v; }
    template<class X> using seq = std::make_index_sequence<std::tuple_size<X>::value>;
    static void gen(Sim& S, T& v) { auto t = Derived::tie(v); gen_(S, t, seq<decltype(t)>()); }
    static void rebuild(Sim& S, T const& s, T& d) { auto a = Derived::tie(const_cast<T&>(s)); auto b = Derived::tie(d); reb_(S, a, b, seq<decltype(a)>()); }
    static bool mutate(Sim& S, T& v)
    {
        auto t = Derived::tie(v); constexpr std::size_t n = std::tuple_size<decltype(t)>::value;
        if(n == 0) return false;
        return mut_(S, t, S.choose(n), seq<decltype(t)>());
    }
    static Value model(T const& v) { auto t = Derived::tie(const_cast<T&>(v)); return mod_(t, seq<decltype(t)>()); }
};

template<class A, class B> struct Codec<std::pair<A, B>>: TiedCodec<std::pair<A, B>, Codec<std::pair<A, B>>>
{
    static auto tie(std::pair<A, B>& p) { return std::tie(const_cast<typename std::remove_const<A>::type&>(p.first), p.second); }
};
template<class... E> struct Codec<std::tuple<E...>>: TiedCodec<std::tuple<E...>, Codec<std::tuple<E...>>>
{
    static auto tie(std::tuple<E...>& t) { return std::apply([](auto&... x) { return std::tie(x...); }, t); }
};

#define VAL_STRUCT(T, ...) \
    template<> struct val::Codec<T>: val::TiedCodec<T, val::Codec<T>> { static auto tie(T& v) { (void)v; return std::tie(__VA_ARGS__); } };

// arrays of fixed size: std::array, boost::array, C arrays, digest
template<class C, class E, std::size_t N> struct ArrayCodec
{
    static void gen(Sim& S, C& c) { for(std::size_t i = 0; i < N; ++i) Codec<E>::gen(S, c[i]); }
    static void rebuild(Sim& S, C const& s, C& d) { for(std::size_t i = 0; i < N; ++i) Codec<E>::rebuild(S, s[i], d[i]); }
    static bool mutate(Sim& S, C& c)
    {
        if(N == 0) return false;
        std::size_t i = S.choose(N ? N : 1), j = S.choose(N ? N : 1);
        if(S.choose(3) && i != j) { E t; Codec<E>::rebuild(S, c[i], t); Codec<E>::rebuild(S, c[j], c[i]); Codec<E>::rebuild(S, t, c[j]); return true; }
        return Codec<E>::mutate(S, c[i]);
    }
    static Value model(C const& c) { Value v = Value::group(Value::FIX); for(std::size_t i = 0; i < N; ++i) v.kids.push_back(Codec<E>::model(c[i])); return v; }
};
template<class E, std::size_t N> struct Codec<std::array<E, N>>: ArrayCodec<std::array<E, N>, E, N> {};
template<class E, std::size_t N> struct Codec<boost::array<E, N>>: ArrayCodec<boost::array<E, N>, E, N> {};
template<class E, std::size_t N> struct Codec<E[N]>: ArrayCodec<E[N], E, N> {};
template<std::size_t N> struct Codec<h2::digest<N>>: ArrayCodec<h2::digest<N>, unsigned char, N> {};

// sequences
template<class C> void seq_model(C const& c, Value& v) { using E = plain<typename C::value_type>; for(auto it = c.begin(); it != c.end(); ++it) { E const& e = *it; v.kids.push_back(Codec<E>::model(e)); } }

// a new element equal to s, or a fresh one
template<class E> struct Raw            // an element in memory with arbitrary padding
{
    alignas(E) unsigned char m[sizeof(E)]; E* p;
    explicit Raw(Sim& S) { std::memset(m, (int)S.choose(256), sizeof m); p = ::new(m) E; }
    ~Raw() { p->~E(); }
};
template<class E> constexpr bool padded = std::is_class<E>::value && std::is_trivially_copyable<E>::value;
template<class E> E fresh(Sim& S) { if constexpr(padded<E>) { Raw<E> r(S); Codec<E>::gen(S, *r.p); return *r.p; } else { E e{}; Codec<E>::gen(S, e); return e; } }
template<class E> E twin(Sim& S, E const& s) { if constexpr(padded<E>) { Raw<E> r(S); Codec<E>::rebuild(S, s, *r.p); return *r.p; } else { E e{}; Codec<E>::rebuild(S, s, e); return e; } }
// a vector of elements without vector<bool> proxies
template<class E> struct Box { E e; };
template<class E, class C> std::vector<Box<E>> unbox(C const& c) { std::vector<Box<E>> r; for(auto it = c.begin(); it != c.end(); ++it) { E const& e = *it; r.push_back(Box<E>{ e }); } return r; }

enum SeqKind { DYN, FRONTED, FWD };     // vector-like, deque/list-like (push_front), forward_list
template<class C, SeqKind K> struct SeqCodec
{
    using E = plain<typename C::value_type>;
    static void put(C& c, std::vector<Box<E>> const& v)
    {
        if constexpr(K == FWD) { c.clear(); for(std::size_t i = v.size(); i-- > 0;) c.push_front(v[i].e); }
        else { c.clear(); for(auto& b: v) c.push_back(b.e); }
    }
    static void gen(Sim& S, C& c) { std::vector<Box<E>> v; std::size_t n = gen_len(S); if(n > limit()) n = limit(); for(std::size_t i = 0; i < n; ++i) v.push_back(Box<E>{ fresh<E>(S) }); put(c, v); }
    static std::size_t limit() { return 5000; }
    static void rebuild(Sim& S, C const& s, C& d)
    {
        std::vector<Box<E>> const src = unbox<E>(s);
        sim::Synth y(S, src.size() > BULKY);
        std::vector<Box<E>> v;
        for(auto& b: src) v.push_back(Box<E>{ twin<E>(S, b.e) });
        if constexpr(K == FWD)
        {
            // append at the tail, with junk inserted and erased on the way
            d.clear(); auto tail = d.before_begin();
            for(auto& b: v) { if(S.choose(4) == 3) { d.push_front(fresh<E>(S)); bool first = tail == d.before_begin(); d.pop_front(); (void)first; } tail = d.insert_after(tail, b.e); }
            if(S.choose(2)) { d.reverse(); d.reverse(); }
        }
        else if constexpr(K == FRONTED)
        {
            d.clear();
            std::size_t j = S.choose(4);
            for(std::size_t i = 0; i < j; ++i) if(S.choose(2)) d.push_back(fresh<E>(S)); else d.push_front(fresh<E>(S));
            for(std::size_t i = 0; i < j; ++i) if(S.choose(2)) d.pop_front(); else d.pop_back();
            std::size_t mid = v.empty() ? 0 : S.choose(v.size() + 1);
            for(std::size_t i = mid; i < v.size(); ++i) d.push_back(v[i].e);
            for(std::size_t i = mid; i-- > 0;) d.push_front(v[i].e);
        }
        else
        {
            d.clear();
            int m = (int)S.choose(4);
            if constexpr(requires_reserve(0)) { if(S.choose(2)) d.reserve(S.choose(100)); }
            if(m == 0) for(auto& b: v) d.push_back(b.e);
            else if(m == 1) for(std::size_t i = v.size(); i-- > 0;) d.insert(d.begin(), v[i].e);
            else if(m == 2)
            {
                // junk before every element, erased afterwards
                std::size_t n = v.size();
                if(n > 20) { for(auto& b: v) d.push_back(b.e); }
                else
                {
                    for(auto& b: v) { d.push_back(fresh<E>(S)); d.push_back(b.e); }
                    for(std::size_t i = 0; i < n; ++i) d.erase(d.begin() + (typename C::difference_type)i);
                }
            }
            else { C t; for(auto& b: v) t.push_back(b.e); d = std::move(t); }
            if constexpr(requires_shrink(0)) { if(S.choose(3) == 2) d.shrink_to_fit(); }
        }
    }
    template<class X = C> static constexpr auto requires_reserve(int) -> decltype(std::declval<X&>().reserve(1), true) { return true; }
    static constexpr bool requires_reserve(long) { return false; }
    template<class X = C> static constexpr auto requires_shrink(int) -> decltype(std::declval<X&>().shrink_to_fit(), true) { return true; }
    static constexpr bool requires_shrink(long) { return false; }
    static bool mutate(Sim& S, C& c)
    {
        auto v = unbox<E>(c);
        std::size_t n = v.size();
        switch(S.choose(8))
        {
        case 0: if(n) v.erase(v.begin() + (long)S.choose(n)); break;                                     // loss
        case 1: if(n && n < limit()) { std::size_t i = S.choose(n); v.insert(v.begin() + (long)i, v[i]); } break;       // duplication
        case 2: if(n > 1) { std::size_t i = S.choose(n), j = S.choose(n); std::swap(v[i], v[j]); } break; // reordering
        case 3: if(n) Codec<E>::mutate(S, v[S.choose(n)].e); break;
        case 4: if(n < limit()) v.insert(v.begin() + (long)S.choose(n + 1), Box<E>{ fresh<E>(S) }); break;
        case 5: if(n > 1) std::rotate(v.begin(), v.begin() + (long)S.choose(n), v.end()); break;
        case 6: std::reverse(v.begin(), v.end()); break;
        default: if(n < limit()) v.push_back(Box<E>{ E{} });                                                        // trailing zero element
        }
        put(c, v);
        return true;
    }
    static Value model(C const& c) { Value v = Value::group(Value::SEQ); seq_model(c, v); return v; }
};
template<class E> struct Codec<std::vector<E>>: SeqCodec<std::vector<E>, DYN> {};
template<class E> struct Codec<std::basic_string<E>>: SeqCodec<std::basic_string<E>, DYN> {};
template<class E> struct Codec<std::deque<E>>: SeqCodec<std::deque<E>, FRONTED> {};
template<class E> struct Codec<std::list<E>>: SeqCodec<std::list<E>, FRONTED> {};
template<class E> struct Codec<std::forward_list<E>>: SeqCodec<std::forward_list<E>, FWD> {};
template<class E, std::size_t N> struct Codec<boost::container::small_vector<E, N>>: SeqCodec<boost::container::small_vector<E, N>, DYN> {};
template<class E> struct Codec<boost::container::stable_vector<E>>: SeqCodec<boost::container::stable_vector<E>, DYN> {};
template<class E> struct Codec<boost::container::deque<E>>: SeqCodec<boost::container::deque<E>, FRONTED> {};

// ordered sets and maps
template<class C, bool Map> struct OrdCodec
{
    using V = typename C::value_type;
    using E = V;
    static void gen(Sim& S, C& c) { c.clear(); std::size_t n = gen_len(S); for(std::size_t i = 0; i < n; ++i) ins(S, c); }
    static void ins(Sim& S, C& c)
    {
        if constexpr(Map) { using K = typename C::key_type; using M = typename C::mapped_type; c.insert(V(fresh<K>(S), fresh<M>(S))); }
        else c.insert(fresh<typename C::key_type>(S));
    }
    // the same elements, in the same final order (equal keys keep their relative order)
    static void rebuild(Sim& S, C const& s, C& d)
    {
        sim::Synth y(S, s.size() > BULKY);
        d.clear();
        std::vector<V const*> v; for(auto& e: s) v.push_back(&e);
        int m = (int)S.choose(4);
        std::size_t n = v.size();
        auto one = [&](V const& e) { if constexpr(Map) { using K = typename C::key_type; using M = typename C::mapped_type; return V(twin<K>(S, e.first), twin<M>(S, e.second)); } else return twin<V>(S, e); };
        std::vector<std::size_t> ord(n); for(std::size_t i = 0; i < n; ++i) ord[i] = i;
        bool unique = true; { for(std::size_t i = 1; i < n; ++i) if(!less(s, *v[i - 1], *v[i])) unique = false; }
        if(unique && m) for(std::size_t i = n; i > 1; --i) std::swap(ord[i - 1], ord[S.choose(i)]);
        std::vector<V> junk;
        for(std::size_t i: ord)
        {
            d.insert(one(*v[i]));
            if(m == 3)
            {
                // insert and remove an element that is not part of the value
                std::size_t before = d.size(); C j; ins(S, j);
                if(s.find(key(*j.begin())) == s.end()) { d.insert(*j.begin()); d.erase(key(*j.begin())); if(d.size() != before) broken("junk element survived"); }
            }
        }
        if(m == 2) { C t(d); d.swap(t); }
    }
    static typename C::key_type const& key(V const& e) { if constexpr(Map) return e.first; else return e; }
    static bool less(C const& c, V const& a, V const& b) { return c.key_comp()(key(a), key(b)); }
    static bool mutate(Sim& S, C& c)
    {
        std::size_t n = c.size();
        switch(S.choose(4))
        {
        case 0: if(n) { auto it = c.begin(); std::advance(it, (long)S.choose(n)); c.erase(it); } break;
        case 1: ins(S, c); break;
        case 2: if(n) { auto it = c.begin(); std::advance(it, (long)S.choose(n)); V e(*it); c.insert(e); } break;   // duplicate (multi containers)
        default:
            if(n)
            {
                auto it = c.begin(); std::advance(it, (long)S.choose(n)); 
                if constexpr(Map) { if(S.choose(2)) { Codec<typename C::mapped_type>::mutate(S, it->second); break; } }
                typename C::key_type k(key(*it)); Codec<typename C::key_type>::mutate(S, k);
                if constexpr(Map) { typename C::mapped_type m(it->second); c.erase(it); c.insert(V(k, m)); } else { c.erase(it); c.insert(k); }
            }
        }
        return true;
    }
    static Value model(C const& c)
    {
        Value v = Value::group(Value::SEQ);
        for(auto& e: c) { if constexpr(Map) { Value p = Value::group(Value::FIX); p.kids.push_back(val::model<plain<typename C::key_type>>(e.first)); p.kids.push_back(val::model<plain<typename C::mapped_type>>(e.second)); v.kids.push_back(p); } else v.kids.push_back(val::model<plain<V>>(e)); }
        return v;
    }
};
template<class K> struct Codec<std::set<K>>: OrdCodec<std::set<K>, false> {};
template<class K> struct Codec<std::multiset<K>>: OrdCodec<std::multiset<K>, false> {};
template<class K, class M> struct Codec<std::map<K, M>>: OrdCodec<std::map<K, M>, true> {};
template<class K, class M> struct Codec<std::multimap<K, M>>: OrdCodec<std::multimap<K, M>, true> {};
template<class K> struct Codec<boost::container::flat_set<K>>: OrdCodec<boost::container::flat_set<K>, false> {};
template<class K, class M> struct Codec<boost::container::flat_map<K, M>>: OrdCodec<boost::container::flat_map<K, M>, true> {};

// unordered sets and maps, whose bucket layout depends on a hasher with a seed of its own
struct SH
{
    std::uint64_t seed = 0;
    template<class K> std::size_t operator()(K const& k) const
    {
        // equal keys (either zero) have equal canonical models
        std::string s = val::model<K>(k).canon();
        return (std::size_t)sim::mix64(seed ^ sim::fnv(s.data(), s.size()));
    }
};
// comparison by model: the harness's own idea of equality
struct SE { template<class K> bool operator()(K const& a, K const& b) const { return val::model<K>(a).canon() == val::model<K>(b).canon(); } };

template<class C, bool Map> struct UnoCodec
{
    using V = typename C::value_type;
    static V make(Sim& S) { if constexpr(Map) return V(fresh<typename C::key_type>(S), fresh<typename C::mapped_type>(S)); else return fresh<V>(S); }
    static typename C::key_type const& key(V const& e) { if constexpr(Map) return e.first; else return e; }
    static void gen(Sim& S, C& c) { c = C(S.choose(40), SH{ S.choose(1000) }); std::size_t n = gen_len(S); for(std::size_t i = 0; i < n; ++i) c.insert(make(S)); }
    static V one(Sim& S, V const& e) { if constexpr(Map) return V(twin<typename C::key_type>(S, e.first), twin<typename C::mapped_type>(S, e.second)); else return twin<V>(S, e); }
    static void rebuild(Sim& S, C const& s, C& d)
    {
        sim::Synth y(S, s.size() > BULKY);
        d = C(S.choose(200), SH{ S.u64() });
        if(S.choose(3) == 0) d.max_load_factor(0.4f);
        std::vector<V const*> v; for(auto& e: s) v.push_back(&e);
        for(std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[S.choose(i)]);
        int m = (int)S.choose(4);
        if(m == 1) d.reserve(v.size() * 3);
        for(auto* e: v)
        {
            d.insert(one(S, *e));
            if(m == 2) { V j = make(S); if(s.find(key(j)) == s.end()) { d.insert(j); d.erase(key(j)); } }
        }
        if(m == 3) d.rehash(S.choose(500));
        if(d.size() != s.size()) broken("rebuilt container has another size");
    }
    static bool mutate(Sim& S, C& c)
    {
        std::size_t n = c.size();
        auto pick = [&] { auto it = c.begin(); std::advance(it, (long)S.choose(n)); return it; };
        switch(S.choose(4))
        {
        case 0: if(n) c.erase(pick()); break;
        case 1: c.insert(make(S)); break;
        case 2: if(n) { V e(*pick()); c.insert(e); } break;
        default:
            if(n)
            {
                auto it = pick();
                if constexpr(Map) { if(S.choose(2)) { Codec<typename C::mapped_type>::mutate(S, it->second); break; } }
                typename C::key_type k(key(*it)); Codec<typename C::key_type>::mutate(S, k);
                if constexpr(Map) { typename C::mapped_type m(it->second); c.erase(it); c.insert(V(k, m)); } else { c.erase(it); c.insert(k); }
            }
        }
        return true;
    }
    static Value model(C const& c)
    {
        Value v = Value::group(Value::UNORD);
        for(auto& e: c) { if constexpr(Map) { Value p = Value::group(Value::FIX); p.kids.push_back(val::model<plain<typename C::key_type>>(e.first)); p.kids.push_back(val::model<plain<typename C::mapped_type>>(e.second)); v.kids.push_back(p); } else v.kids.push_back(val::model<plain<V>>(e)); }
        return v;
    }
};
template<class K> using uset = std::unordered_set<K, SH, SE>;
template<class K> using umset = std::unordered_multiset<K, SH, SE>;
template<class K, class M> using umap = std::unordered_map<K, M, SH, SE>;
template<class K, class M> using ummap = std::unordered_multimap<K, M, SH, SE>;
template<class K> using buset = boost::unordered_set<K, SH, SE>;
template<class K, class M> using bumap = boost::unordered_map<K, M, SH, SE>;
template<class K> using bfset = boost::unordered_flat_set<K, SH, SE>;
template<class K, class M> using bfmap = boost::unordered_flat_map<K, M, SH, SE>;
template<class K> struct Codec<uset<K>>: UnoCodec<uset<K>, false> {};
template<class K> struct Codec<umset<K>>: UnoCodec<umset<K>, false> {};
template<class K, class M> struct Codec<umap<K, M>>: UnoCodec<umap<K, M>, true> {};
template<class K, class M> struct Codec<ummap<K, M>>: UnoCodec<ummap<K, M>, true> {};
template<class K> struct Codec<buset<K>>: UnoCodec<buset<K>, false> {};
template<class K, class M> struct Codec<bumap<K, M>>: UnoCodec<bumap<K, M>, true> {};
template<class K> struct Codec<bfset<K>>: UnoCodec<bfset<K>, false> {};
template<class K, class M> struct Codec<bfmap<K, M>>: UnoCodec<bfmap<K, M>, true> {};

// ---------------------------------------------------------------- type table

struct TypeOps
{
    char const* name;
    std::size_t size;
    void (*gen)(Sim&, void*);                       // constructs in raw memory
    void (*rebuild)(Sim&, void const*, void*);      // constructs in raw memory
    bool (*mutate)(Sim&, void*);
    Value (*model)(void const*);
    void (*destroy)(void*);
    void (*append)(int flavor, AnyHash&, void const*);
    Bytes (*direct)(int, std::uint64_t, void const*);
};

inline std::vector<TypeOps>& types_() { static std::vector<TypeOps> v; return v; }
// sorted by name: independent of link order
inline std::vector<TypeOps> const& types()
{
    static bool done = false;
    if(!done) { std::sort(types_().begin(), types_().end(), [](TypeOps const& a, TypeOps const& b) { return std::strcmp(a.name, b.name) < 0; }); done = true; }
    return types_();
}

template<class T> struct RegType
{
    struct W { T v; };                              // so that C arrays can be registered too
    explicit RegType(char const* name)
    {
        TypeOps o;
        o.name = name; o.size = sizeof(W);
        static_assert(alignof(W) <= 16, "");
        o.gen = [](Sim& S, void* m) { W* w = ::new(m) W; draw_scale(S, 150); { sim::Synth y(S, scale() > 1); Codec<T>::gen(S, w->v); } scale() = 1; };
        o.rebuild = [](Sim& S, void const* s, void* m) { W* w = ::new(m) W; Codec<T>::rebuild(S, static_cast<W const*>(s)->v, w->v); };
        o.mutate = [](Sim& S, void* m) { return Codec<T>::mutate(S, static_cast<W*>(m)->v); };
        o.model = [](void const* m) { return Codec<T>::model(static_cast<W const*>(m)->v); };
        o.destroy = [](void* m) { static_cast<W*>(m)->~W(); };
        o.append = [](int f, AnyHash& h, void const* m)
        {
            T const& v = static_cast<W const*>(m)->v;
            switch(f)
            {
            case 0: { h2::default_flavor x; h2::hash_append(h, x, v); break; }
            case 1: { h2::little_endian_flavor x; h2::hash_append(h, x, v); break; }
            case 2: { h2::big_endian_flavor x; h2::hash_append(h, x, v); break; }
            case 3: { small_big x; h2::hash_append(h, x, v); break; }
            default: { tiny_little x; h2::hash_append(h, x, v); break; }
            }
        };
        o.direct = [](int i, std::uint64_t seed, void const* m) { return val::direct(i, seed, static_cast<W const*>(m)->v); };
        types_().push_back(o);
    }
};
#define VAL_CAT2(a, b) a##b
#define VAL_CAT(a, b) VAL_CAT2(a, b)
#define VAL_TYPE(...) static val::RegType<__VA_ARGS__> VAL_CAT(reg_, __LINE__)(#__VA_ARGS__);

enum { MAXVAL = 1024 };
// owner of one value in memory with controlled previous content
struct Cell
{
    alignas(16) unsigned char mem[MAXVAL];
    TypeOps const* t = nullptr;
    ~Cell() { reset(); }
    Cell() {}
    Cell(Cell const&) = delete;
    void reset() { if(t) { auto* x = t; t = nullptr; x->destroy(mem); } }
    void gen(Sim& S, TypeOps const& o) { reset(); std::memset(mem, (int)S.choose(256), o.size); o.gen(S, mem); t = &o; }
    void rebuild(Sim& S, Cell const& c) { reset(); std::memset(mem, (int)S.choose(256), c.t->size); c.t->rebuild(S, c.mem, mem); t = c.t; }
    Value model() const { return t->model(mem); }
};

} // namespace val
