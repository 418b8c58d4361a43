// Containers of hundreds to a hundred thousand elements, built through different histories, with their documented messages.
#pragma once
#include "values.hpp"

namespace big
{
using sim::Sim; using sim::Bytes;
using namespace val;

// sizes around the limits of narrow counters
inline std::size_t size(Sim& S, std::size_t most)
{
    std::size_t n;
    switch(S.choose(8))
    {
    case 0: n = 256; break;
    case 1: n = 250 + S.choose(12); break;
    case 2: n = 256 * (1 + S.choose(8)) + S.choose(3); break;
    case 3: n = (128u << S.choose(6)) - 1 + S.choose(3); break;
    case 4: n = 60 + S.choose(5000); break;
    case 5: n = 32767 + S.choose(3); break;
    case 6: n = 65535 + S.choose(3); break;
    default: n = 65536 + S.choose(70000);
    }
    return std::min(n, most);
}

template<class V> struct Elem
{
    static V make(std::uint64_t k) { return (V)k; }
    static void put(V const& v, Value& out) { out.kids.push_back(Value::integer(sizeof(V), (std::uint64_t)v)); }
};
template<class A, class B> struct Elem<std::pair<A, B>>
{
    typedef std::pair<A, B> V; typedef typename std::remove_const<A>::type K;
    static V make(std::uint64_t k) { return V((K)k, (B)sim::mix64(k)); }
    static void put(V const& v, Value& out) { Value p = Value::group(Value::FIX); Elem<K>::put(v.first, p); Elem<B>::put(v.second, p); out.kids.push_back(p); }
};
template<> struct Elem<std::string>
{
    static std::string make(std::uint64_t k) { return std::to_string(k); }
    static void put(std::string const& s, Value& out) { Value v = Value::group(Value::SEQ); for(char c: s) Elem<char>::put(c, v); out.kids.push_back(v); }
};

template<class C> auto has_push_back(int) -> decltype(std::declval<C&>().push_back(std::declval<typename C::value_type>()), std::true_type()); template<class C> std::false_type has_push_back(long);
template<class C> auto has_push_front(int) -> decltype(std::declval<C&>().push_front(std::declval<typename C::value_type>()), std::true_type()); template<class C> std::false_type has_push_front(long);
template<class C> auto has_reserve(int) -> decltype(std::declval<C&>().reserve(1), std::true_type()); template<class C> std::false_type has_reserve(long);

// one of the histories that lead to the elements v; for sets and maps the elements are distinct and ascending
template<class C, class V> void build(Sim& S, C& c, std::vector<V> const& v)
{
    std::size_t n = v.size();
    if constexpr(decltype(has_reserve<C>(0))::value) if(S.choose(2)) { c.reserve(n + S.choose(1000)); S.probe("reserved"); }
    if constexpr(decltype(has_push_back<C>(0))::value)
    {
        if constexpr(decltype(has_push_front<C>(0))::value)
        {
            std::size_t mid = S.choose(n + 1);
            for(std::size_t i = mid; i < n; ++i) c.push_back(v[i]);
            for(std::size_t i = mid; i-- > 0;) c.push_front(v[i]);
        }
        else for(auto const& x: v) c.push_back(x);
        return;
    }
    else if constexpr(decltype(has_push_front<C>(0))::value) { for(std::size_t i = n; i-- > 0;) c.push_front(v[i]); return; }
    else
    {
        std::vector<std::size_t> o(n); for(std::size_t i = 0; i < n; ++i) o[i] = i;
        int m = (int)S.choose(4);
        if(m == 1) std::reverse(o.begin(), o.end());
        if(m >= 2) { sim::Rng r(S.u64()); for(std::size_t i = n; i > 1; --i) std::swap(o[i - 1], o[r.next() % i]); }
        for(std::size_t i: o) c.insert(v[i]);
        if(m == 3) { C t(c); c.swap(t); }
    }
}

template<class C> struct Ops
{
    typedef typename C::value_type V;
    static void append(int fl, AnyHash& h, C const& c)
    {
        switch(fl) { case 0: h2::hash_append(h, h2::default_flavor(), c); break; case 1: h2::hash_append(h, h2::little_endian_flavor(), c); break; case 2: h2::hash_append(h, h2::big_endian_flavor(), c); break; case 3: h2::hash_append(h, small_big(), c); break; default: h2::hash_append(h, tiny_little(), c); }
    }
};
}
