// The interpreter of one fleet node: the library behind it is built with this node's compiler and flags.
// The same code runs at compile time in the constant-evaluation nodes.
#pragma once
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstring>
#include <limits>
#include <ostream>
#include <string>
#include <type_traits>
#include <utility>
#if defined(VSIM_PORTABLE)
// a compiler without these builtins
# include <boost/hash2/detail/config.hpp>
# undef BOOST_HASH2_HAS_BUILTIN_IS_CONSTANT_EVALUATED
# undef BOOST_HASH2_HAS_BUILTIN_BIT_CAST
#endif
#include "c09_prog.hpp"
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/get_integral_result.hpp>
#include <boost/hash2/digest.hpp>
#include <boost/hash2/fnv1a.hpp>
#include <boost/hash2/xxhash.hpp>
#include <boost/hash2/siphash.hpp>
#include <boost/hash2/md5.hpp>
#include <boost/hash2/sha1.hpp>
#include <boost/hash2/sha2.hpp>
#include <boost/hash2/ripemd.hpp>
#if !defined(VSIM_CT) && !defined(VSIM_BIG) && !defined(VSIM_SERVE)
#include <boost/hash2/legacy/murmur3.hpp>
#include <boost/hash2/legacy/spooky2.hpp>
#endif
#include <boost/describe.hpp>
#include <array>
#include <cstdint>
#include <deque>
#include <list>
#include <map>
#include <set>
#if !defined(VSIM_BIG) && !defined(VSIM_SERVE)
#include <sstream>
#endif
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#define CX BOOST_CXX14_CONSTEXPR
#if defined(VSIM_CT)
enum { OUTMAX = 1500, MSGMAX = 700 };
#else
enum { OUTMAX = 60000, MSGMAX = 30000 };
#endif
#if defined(VSIM_CT) && defined(__cpp_lib_constexpr_vector) && defined(__cpp_lib_constexpr_string) && __cpp_lib_constexpr_string >= 201907L
# define VSIM_CX20 1
#endif
#if !defined(VSIM_CT)
# define VSIM_CX20 1
# define VSIM_RT 1
#endif

namespace node
{
namespace h2 = boost::hash2;
typedef unsigned char uc;

struct Out
{
    bool ok = true;
    uc b[OUTMAX]; std::size_t n; bool over;
    CX Out(): b(), n(0), over(false) {}
    CX void put(uc x) { if(n < OUTMAX) b[n++] = x; else over = true; }
    CX void num(std::uint64_t x, int w) { for(int i = 0; i < w; ++i) put((uc)(x >> (8 * i))); }
};
struct In
{
    uc const* p; std::size_t n;
    CX uc get() { if(n == 0) return 0; --n; return *p++; }
    CX In blob() { std::size_t k = (std::size_t)num(2); if(k > n) k = n; In r{ p, k }; p += k; n -= k; return r; }
    CX std::uint64_t num(int w) { std::uint64_t x = 0; for(int i = 0; i < w; ++i) x |= (std::uint64_t)get() << (8 * i); return x; }
};

// a hash algorithm that records its message
struct Recorder
{
    typedef std::uint64_t result_type;
    uc b[MSGMAX]; std::size_t n; std::uint64_t w;
    CX Recorder(): b(), n(0), w(0xcbf29ce484222325ull) {}
    CX void update(uc const* p, std::size_t k) { for(std::size_t i = 0; i < k; ++i) { if(n < MSGMAX) b[n] = p[i]; ++n; w = (w ^ p[i]) * 0x100000001b3ull; } }
    void update(void const* p, std::size_t k) { update(static_cast<uc const*>(p), k); }
    CX std::uint64_t result() { w *= 0x9E3779B97F4A7C15ull; return w ^ (w >> 29); }
};

// ---- values
enum Enum { e0, e1 = 0x12345 };
enum class Enum16: std::int16_t { a };
enum class Enum8: unsigned char { a };
struct Tagged
{
    char a; int b;
    template<class H, class F> friend CX void tag_invoke(h2::hash_append_tag const&, H& h, F const& f, Tagged const& t) { h2::hash_append(h, f, t.b); h2::hash_append(h, f, t.a); }
};
#if defined(BOOST_DESCRIBE_CXX14)
struct Point { char tag; short x; double y; };
BOOST_DESCRIBE_STRUCT(Point, (), (tag, x, y))
struct Base { int id; };
BOOST_DESCRIBE_STRUCT(Base, (), (id))
struct Derived: Base { float w[2]; CX Derived(): Base{ 0 }, w() {} };
BOOST_DESCRIBE_STRUCT(Derived, (Base), (w))
struct Empty {};
BOOST_DESCRIBE_STRUCT(Empty, (), ())
#endif

template<class T> struct Make;
#define VSIM_INT(T) template<> struct Make<T> { static CX T make(In& i) { return (T)i.num(sizeof(T)); } };
VSIM_INT(char) VSIM_INT(signed char) VSIM_INT(unsigned char) VSIM_INT(short) VSIM_INT(unsigned short) VSIM_INT(int) VSIM_INT(unsigned) VSIM_INT(long) VSIM_INT(unsigned long) VSIM_INT(long long) VSIM_INT(unsigned long long)
VSIM_INT(wchar_t) VSIM_INT(char16_t) VSIM_INT(char32_t)
template<> struct Make<bool> { static CX bool make(In& i) { return i.num(1) & 1; } };
template<> struct Make<Enum> { static CX Enum make(In& i) { return (Enum)(i.num(1) & 1); } };
template<> struct Make<Enum16> { static CX Enum16 make(In& i) { return (Enum16)(std::int16_t)i.num(2); } };
template<> struct Make<Enum8> { static CX Enum8 make(In& i) { return (Enum8)i.num(1); } };
// exact arithmetic only: the same value in every build
template<class F> struct MakeF
{
    static CX F make(In& i)
    {
        uc k = i.get(); std::int32_t m = (std::int32_t)(std::uint32_t)i.num(3); int e = i.get() & 31;
        F r = (F)m;
        if(k % 3 == 1) for(int j = 0; j < e; ++j) r *= (F)2;
        if(k % 3 == 2) for(int j = 0; j < e; ++j) r *= (F)0.5;
        if(k & 128) r = -r;                             // includes negative zero
        return r;
    }
};
template<> struct Make<float>: MakeF<float> {};
template<> struct Make<double>: MakeF<double> {};
template<class A, class B> struct Make<std::pair<A, B>> { static CX std::pair<A, B> make(In& i) { A a = Make<A>::make(i); B b = Make<B>::make(i); return std::pair<A, B>(a, b); } };
template<> struct Make<Tagged> { static CX Tagged make(In& i) { char a = Make<char>::make(i); int b = Make<int>::make(i); return Tagged{ a, b }; } };
template<> struct Make<h2::digest<12>> { static CX h2::digest<12> make(In& i) { uc t[12] = {}; for(int k = 0; k < 12; ++k) t[k] = i.get(); return h2::digest<12>(t); } };
#if defined(BOOST_DESCRIBE_CXX14)
template<> struct Make<Point> { static CX Point make(In& i) { Point p{ 0, 0, 0 }; p.tag = Make<char>::make(i); p.x = Make<short>::make(i); p.y = Make<double>::make(i); return p; } };
template<> struct Make<Derived> { static CX Derived make(In& i) { Derived d; d.id = Make<int>::make(i); d.w[0] = Make<float>::make(i); d.w[1] = Make<float>::make(i); return d; } };
template<> struct Make<Empty> { static CX Empty make(In&) { return Empty{}; } };
#endif
#if defined(VSIM_RT)
template<class C> struct MakeSeq { static C make(In& i) { C c; std::size_t n = i.get() % 40; for(std::size_t k = 0; k < n; ++k) c.insert(c.end(), Make<typename std::remove_const<typename C::value_type>::type>::make(i)); return c; } };
template<class E> struct Make<std::vector<E>>: MakeSeq<std::vector<E>> {};
template<class E> struct Make<std::basic_string<E>>: MakeSeq<std::basic_string<E>> {};
template<class E> struct Make<std::deque<E>>: MakeSeq<std::deque<E>> {};
template<class E> struct Make<std::list<E>>: MakeSeq<std::list<E>> {};
template<class E> struct Make<std::set<E>>: MakeSeq<std::set<E>> {};
template<class E> struct Make<std::unordered_set<E>>: MakeSeq<std::unordered_set<E>> {};
template<class K, class V> struct MakeMap { static K make(In& i) { K c; std::size_t n = i.get() % 20; for(std::size_t k = 0; k < n; ++k) { V a = Make<V>::make(i); c[a] = Make<typename K::mapped_type>::make(i); } return c; } };
template<class K, class V> struct Make<std::map<K, V>>: MakeMap<std::map<K, V>, K> {};
template<class K, class V> struct Make<std::unordered_map<K, V>>: MakeMap<std::unordered_map<K, V>, K> {};
template<class T> struct Make<T*> { static T* make(In& i) { return reinterpret_cast<T*>((std::uintptr_t)(i.num(6) & ~15ull)); } };
template<> struct Make<std::nullptr_t> { static std::nullptr_t make(In&) { return nullptr; } };
#elif defined(VSIM_CX20)
template<class C> struct MakeSeq { static constexpr C make(In& i) { C c; std::size_t n = i.get() % 40; for(std::size_t k = 0; k < n; ++k) c.push_back(Make<typename C::value_type>::make(i)); return c; } };
template<class E> struct Make<std::vector<E>>: MakeSeq<std::vector<E>> {};
template<class E> struct Make<std::basic_string<E>>: MakeSeq<std::basic_string<E>> {};
#endif

struct small_big { using size_type = std::uint32_t; static constexpr auto byte_order = h2::endian::big; };

template<class H, class T> CX void append_f(H& h, int f, T const& v)
{
    switch(f)
    {
    case 0: h2::hash_append(h, h2::default_flavor(), v); break;
    case 1: h2::hash_append(h, h2::little_endian_flavor(), v); break;
    case 2: h2::hash_append(h, h2::big_endian_flavor(), v); break;
    default: h2::hash_append(h, small_big(), v); break;
    }
}
template<class T, class H> CX void append_t(H& h, int f, In& i) { T v = Make<T>::make(i); append_f(h, f, v); }

#define VSIM_ONE(E, T) case prog::E: append_t<T>(h, f, i); break;
typedef std::pair<int, char> PIC; typedef std::pair<std::pair<char, short>, std::pair<double, bool>> PP; typedef std::tuple<char, double, short> TUP; typedef std::pair<std::string, int> PSI;

template<class H> CX bool append(H& h, int f, int type, In& i)
{
    switch(type)
    {
    VSIM_ONE(T_BOOL, bool) VSIM_ONE(T_CHAR, char) VSIM_ONE(T_SCHAR, signed char) VSIM_ONE(T_UCHAR, unsigned char) VSIM_ONE(T_SHORT, short) VSIM_ONE(T_USHORT, unsigned short)
    VSIM_ONE(T_INT, int) VSIM_ONE(T_UINT, unsigned) VSIM_ONE(T_LONG, long) VSIM_ONE(T_ULONG, unsigned long) VSIM_ONE(T_LLONG, long long) VSIM_ONE(T_ULLONG, unsigned long long)
    VSIM_ONE(T_WCHAR, wchar_t) VSIM_ONE(T_CHAR16, char16_t) VSIM_ONE(T_CHAR32, char32_t) VSIM_ONE(T_ENUM, Enum) VSIM_ONE(T_ENUM16, Enum16) VSIM_ONE(T_ENUM8, Enum8)
    VSIM_ONE(T_FLOAT, float) VSIM_ONE(T_DOUBLE, double) VSIM_ONE(T_PAIR_IC, PIC) VSIM_ONE(T_PAIR_PAIR, PP) VSIM_ONE(T_TAGGED, Tagged) VSIM_ONE(T_DIGEST, h2::digest<12>)
    case prog::T_INT3: { int a[3] = {}; for(int k = 0; k < 3; ++k) a[k] = Make<int>::make(i); append_f(h, f, a); break; }
    case prog::T_CHAR5: { char a[5] = {}; for(int k = 0; k < 5; ++k) a[k] = Make<char>::make(i); append_f(h, f, a); break; }
    case prog::T_UCHAR4x2: { unsigned char a[4][2] = {}; for(int k = 0; k < 8; ++k) a[k / 2][k % 2] = i.get(); append_f(h, f, a); break; }
    case prog::T_DOUBLE2: { double a[2] = {}; for(int k = 0; k < 2; ++k) a[k] = Make<double>::make(i); append_f(h, f, a); break; }
    case prog::T_ARR_INT3: { int x = Make<int>::make(i), y = Make<int>::make(i), z = Make<int>::make(i); std::array<int, 3> a = {{ x, y, z }}; append_f(h, f, a); break; }
    case prog::T_ARR_CHAR4: { char x = Make<char>::make(i), y = Make<char>::make(i); std::array<char, 4> a = {{ x, y, x, 'c' }}; append_f(h, f, a); break; }
    case prog::T_ARR_FLOAT2: { float x = Make<float>::make(i), y = Make<float>::make(i); std::array<float, 2> a = {{ x, y }}; append_f(h, f, a); break; }
    case prog::T_ARR_CHAR0: { std::array<char, 0> a = {}; append_f(h, f, a); break; }
    case prog::T_TUPLE: { char a = Make<char>::make(i); double b = Make<double>::make(i); short c = Make<short>::make(i); TUP t(a, b, c); append_f(h, f, t); break; }
    case prog::T_TUPLE0: { std::tuple<> t; append_f(h, f, t); break; }
#if defined(BOOST_DESCRIBE_CXX14) && (!defined(VSIM_CT) || __cplusplus >= 201703L)      // constexpr lambdas
    VSIM_ONE(T_POINT, Point) VSIM_ONE(T_DERIVED, Derived) VSIM_ONE(T_EMPTY, Empty)
    case prog::T_POINTS2: { Point a[2] = {}; a[0] = Make<Point>::make(i); a[1] = Make<Point>::make(i); append_f(h, f, a); break; }
    case prog::T_PAIR_POINT: { int k = Make<int>::make(i); Point p = Make<Point>::make(i); std::pair<int, Point> a(k, p); append_f(h, f, a); break; }
#endif
#if defined(VSIM_CX20)
    VSIM_ONE(T_VEC_INT, std::vector<int>) VSIM_ONE(T_VEC_CHAR, std::vector<char>) VSIM_ONE(T_VEC_VEC, std::vector<std::vector<unsigned char>>) VSIM_ONE(T_STRING, std::string) VSIM_ONE(T_U16STRING, std::u16string)
    VSIM_ONE(T_VEC_DOUBLE, std::vector<double>) VSIM_ONE(T_VEC_PAIR, std::vector<PIC>)
#endif
#if defined(VSIM_RT)
    VSIM_ONE(T_VEC_BOOL, std::vector<bool>) VSIM_ONE(T_DEQUE, std::deque<short>) VSIM_ONE(T_LIST_STRING, std::list<std::string>) VSIM_ONE(T_SET, std::set<int>) 
    case prog::T_MAP: append_t<std::map<std::string, int>>(h, f, i); break;
    case prog::T_UMAP: append_t<std::unordered_map<std::string, double>>(h, f, i); break;
    VSIM_ONE(T_USET, std::unordered_set<int>) VSIM_ONE(T_PTR, int*) VSIM_ONE(T_NULLPTR, std::nullptr_t) VSIM_ONE(T_WSTRING, std::wstring) VSIM_ONE(T_VEC_ENUM, std::vector<Enum16>)
# if defined(BOOST_DESCRIBE_CXX14)
    VSIM_ONE(T_VEC_POINT, std::vector<Point>)
# endif
#endif
    default: return false;
    }
    return true;
}

enum { RMAX = 16 };
template<class H, class F> CX void range_f(H& h, F const& f, int kind, In& i)
{
    std::size_t n = i.get() % (RMAX + 1);
    switch(kind)
    {
    case prog::R_INT: { int a[RMAX] = {}; for(std::size_t k = 0; k < n; ++k) a[k] = Make<int>::make(i); h2::hash_append_range(h, f, a + 0, a + n); break; }
    case prog::R_CHAR: { char a[RMAX] = {}; for(std::size_t k = 0; k < n; ++k) a[k] = Make<char>::make(i); char const* p = a; h2::hash_append_range(h, f, p, p + n); break; }
    case prog::R_UCHAR: { uc a[RMAX] = {}; for(std::size_t k = 0; k < n; ++k) a[k] = i.get(); uc const* p = a; h2::hash_append_range(h, f, p, p + n); break; }
    case prog::R_DOUBLE: { double a[RMAX] = {}; for(std::size_t k = 0; k < n; ++k) a[k] = Make<double>::make(i); h2::hash_append_range(h, f, a + 0, a + n); break; }
    case prog::R_SHORT: { short a[RMAX] = {}; for(std::size_t k = 0; k < n; ++k) a[k] = Make<short>::make(i); short const* p = a; h2::hash_append_range(h, f, p, p + n); break; }
    case prog::R_SIZED_INT: { int a[RMAX] = {}; for(std::size_t k = 0; k < n; ++k) a[k] = Make<int>::make(i); h2::hash_append_sized_range(h, f, a + 0, a + n); break; }
    case prog::R_SIZED_UCHAR: { uc a[RMAX] = {}; for(std::size_t k = 0; k < n; ++k) a[k] = i.get(); uc* p = a; h2::hash_append_sized_range(h, f, p, p + n); break; }
    case prog::R_SIZED_BOOL: { bool a[RMAX] = {}; for(std::size_t k = 0; k < n; ++k) a[k] = i.get() & 1; h2::hash_append_sized_range(h, f, a + 0, a + n); break; }
    case prog::R_SIZE_INT: { int x = Make<int>::make(i); h2::hash_append_size(h, f, x); break; }
    default: { uc x = i.get(); h2::hash_append_size(h, f, x); break; }
    }
}
template<class H> CX void range(H& h, int f, int kind, In& i)
{
    switch(f)
    {
    case 0: range_f(h, h2::default_flavor(), kind, i); break;
    case 1: range_f(h, h2::little_endian_flavor(), kind, i); break;
    case 2: range_f(h, h2::big_endian_flavor(), kind, i); break;
    default: range_f(h, small_big(), kind, i); break;
    }
}

// ---- results
CX inline void digest_out(std::uint32_t r, Out& o) { o.num(r, 4); }
CX inline void digest_out(std::uint64_t r, Out& o) { o.num(r, 8); }
template<std::size_t N> CX void digest_out(h2::digest<N> const& r, Out& o) { for(std::size_t k = 0; k < N; ++k) o.put(r[k]); }
template<std::size_t N> CX void digest_out(std::array<uc, N> const& r, Out& o) { for(std::size_t k = 0; k < N; ++k) o.put(r[k]); }
template<std::size_t N> CX void text_out(std::array<uc, N> const&, Out&) {}
CX inline void text_out(std::uint32_t, Out&) {}
CX inline void text_out(std::uint64_t, Out&) {}
template<std::size_t N> CX void text_out(h2::digest<N> const& r, Out& o)
{
    char t[2 * N + 1] = {}; h2::to_chars(r, t); for(std::size_t k = 0; k <= 2 * N; ++k) o.put((uc)t[k]);
    h2::digest<N> const z(r); o.put(z == r); o.put(z != r);
    std::size_t const at[6] = { 0, N / 2, N - 1, N / 4, N - 2, 1 };
    for(std::size_t k = 0; k < 6; ++k) { h2::digest<N> y(r); y[at[k]] ^= (uc)(1u << k); o.put(y == z); o.put(z != y); }
}
#if defined(VSIM_RT)
inline void stream_out(std::uint32_t, Out&) {}
inline void stream_out(std::uint64_t, Out&) {}
template<std::size_t N> void stream_out(std::array<uc, N> const&, Out&) {}
#if defined(VSIM_BIG) || defined(VSIM_SERVE)          // the streams are the host's
template<std::size_t N> void stream_out(h2::digest<N> const& r, Out& o) { std::string t = to_string(r); for(int k = 0; k < 2; ++k) for(char c: t) o.put((uc)c); }
#else
template<std::size_t N> void stream_out(h2::digest<N> const& r, Out& o) { std::ostringstream s; s << r; std::string t = s.str() + to_string(r); for(char c: t) o.put((uc)c); }
#endif
template<class H> void bulk(H& h, std::size_t n, std::uint32_t seed)
{
    std::uint32_t x = seed * 2654435761u + 1; std::vector<uc> b(n + 1);
    for(std::size_t k = 0; k < n; ++k) { x = x * 1664525u + 1013904223u; b[k] = (uc)(x >> 24); }
    h.update(b.data(), n);
}
// the pattern whose reference states longhaul.txt holds, in pieces of any size
template<class H> void haul(H& h, std::uint64_t n, std::uint32_t piece)
{
    enum { PERIOD = 1 << 21 };
    static uc* p = 0;
    if(!p) { static uc store[PERIOD]; p = store; std::uint64_t x = 0x243F6A8885A308D3ull; for(std::size_t i = 0; i < PERIOD; ++i) { x = x * 6364136223846793005ull + 1442695040888963407ull; p[i] = (uc)(x >> 56); } }
    std::size_t at = 0;
    while(n)
    {
        std::size_t k = PERIOD - at; if(k > piece) k = piece; if(k > n) k = (std::size_t)n;
        h.update(p + at, k); n -= k; at = (at + k) % PERIOD;
    }
}
template<class R> void integral_out(R const& r, Out& o)
{
    o.num((std::uint64_t)(std::int64_t)h2::get_integral_result<char>(r) & 0xff, 1); o.num((std::uint64_t)h2::get_integral_result<signed char>(r), 1); o.num(h2::get_integral_result<unsigned char>(r), 1);
    o.num((std::uint64_t)h2::get_integral_result<short>(r), 2); o.num(h2::get_integral_result<unsigned short>(r), 2); o.num((std::uint64_t)h2::get_integral_result<int>(r), 4); o.num(h2::get_integral_result<unsigned>(r), 4);
    o.num((std::uint64_t)h2::get_integral_result<std::conditional<sizeof(long) == 8, long, long long>::type>(r), 8); o.num(h2::get_integral_result<std::conditional<sizeof(long) == 8, unsigned long, unsigned long long>::type>(r), 8); o.num((std::uint64_t)h2::get_integral_result<long long>(r), 8); o.num(h2::get_integral_result<unsigned long long>(r), 8);
    o.num((std::uint64_t)h2::get_integral_result<wchar_t>(r), 4); o.num(h2::get_integral_result<char16_t>(r), 2); o.num(h2::get_integral_result<char32_t>(r), 4);
}
#endif

// what may differ: the native order, and the sizes of some types
CX inline bool portable(int f, int t)
{
#if defined(VSIM_BIG)
    return t != prog::T_PTR;                            // pointers are the host's
#endif
    if(h2::endian::native != h2::endian::little && f == 0) return false;
    if(sizeof(void*) != 8 && (t == prog::T_PTR || t == prog::T_NULLPTR)) return false;
    if(sizeof(long) != 8 && (t == prog::T_LONG || t == prog::T_ULONG)) return false;
    return sizeof(wchar_t) == 4 || t != prog::T_WCHAR;
}

// values are appended to three of the algorithms directly, to all through the recorder
template<class H> struct Direct { static CX bool append(H&, int, int, In&) { return false; } };
template<class H> struct DirectYes { static CX bool append(H& h, int f, int t, In& i) { return node::append(h, f, t, i); } };
template<> struct Direct<h2::fnv1a_64>: DirectYes<h2::fnv1a_64> {};
template<> struct Direct<h2::siphash_64>: DirectYes<h2::siphash_64> {};
#if !defined(VSIM_CT)
template<> struct Direct<h2::sha2_256>: DirectYes<h2::sha2_256> {};
#endif

template<class H, bool Legacy> struct Upd { static CX void u(H& h, uc const* p, std::size_t n) { h.update(p, n); } };
template<class H> struct Upd<H, true> { static void u(H& h, uc const* p, std::size_t n) { h.update(static_cast<void const*>(p), n); } };

template<class H, bool Legacy> CX bool ops(H h, In& i, Out& o)
{
    bool ok = true;
    for(;;)
    {
        int op = i.get();
        switch(op)
        {
        case prog::END: return ok;
        case prog::UPDATE_U: case prog::UPDATE_V:
            {
                In u = i.blob(); uc const* p = u.p; std::size_t n = u.n;
#if defined(VSIM_RT)
                if(op == prog::UPDATE_V) { h.update(static_cast<void const*>(p), n); break; }
#endif
                Upd<H, Legacy>::u(h, p, n); break;
            }
        case prog::RESULT: { auto r = h.result(); digest_out(r, o); break; }
        case prog::TEXT: { auto r = h.result(); text_out(r, o); break; }
        case prog::INTEGRAL:
            {
#if defined(VSIM_RT)
                auto r = h.result(); integral_out(r, o); stream_out(r, o); break;
#else
                return false;
#endif
            }
        case prog::APPEND_HASH: { int f = i.get() % prog::FLAVORS; int t = i.get(); In v = i.blob(); ok = portable(f, t) && Direct<H>::append(h, f, t, v) && ok; break; }
        case prog::APPEND_MSG: { int f = i.get() % prog::FLAVORS; int t = i.get(); In v = i.blob(); Recorder r; ok = portable(f, t) && append(r, f, t, v) && ok; o.num(r.n, 2); for(std::size_t k = 0; k < r.n && k < MSGMAX; ++k) o.put(r.b[k]); break; }
        case prog::RANGE_MSG: { int f = i.get() % prog::FLAVORS; int t = i.get(); In v = i.blob(); Recorder r; ok = portable(f, -1) && ok; range(r, f, t, v); o.num(r.n, 2); for(std::size_t k = 0; k < r.n && k < MSGMAX; ++k) o.put(r.b[k]); break; }
        case prog::BULK:
            {
#if defined(VSIM_RT)
                std::size_t n = (std::size_t)i.num(3); bulk(h, n, (std::uint32_t)i.get()); break;
#else
                return false;
#endif
            }
        case prog::HAUL:
            {
#if defined(VSIM_RT)
                std::uint64_t n = i.num(8); std::uint32_t piece = (std::uint32_t)i.num(4); haul(h, n, piece ? piece : 1); break;
#else
                return false;
#endif
            }
        case prog::COPY: { H g(h); h = g; break; }
        default: return false;
        }
    }
}
template<class H, bool Legacy = false> CX bool start(In& i, Out& o)
{
    switch(i.get())
    {
    case 0: return ops<H, Legacy>(H(), i, o);
    case 1: return ops<H, Legacy>(H(i.num(8)), i, o);
    default: { In u = i.blob(); return ops<H, Legacy>(H(u.p, u.n), i, o); }
    }
}
CX inline bool run(uc const* p, std::size_t n, Out& o)
{
    In i{ p, n };
    switch(i.get())
    {
    case 0: return start<h2::fnv1a_32>(i, o); case 1: return start<h2::fnv1a_64>(i, o); case 2: return start<h2::xxhash_32>(i, o); case 3: return start<h2::xxhash_64>(i, o);
    case 4: return start<h2::siphash_32>(i, o); case 5: return start<h2::siphash_64>(i, o); case 6: return start<h2::md5_128>(i, o); case 7: return start<h2::sha1_160>(i, o);
    case 8: return start<h2::sha2_256>(i, o); case 9: return start<h2::sha2_224>(i, o); case 10: return start<h2::sha2_512>(i, o); case 11: return start<h2::sha2_384>(i, o);
    case 12: return start<h2::sha2_512_224>(i, o); case 13: return start<h2::sha2_512_256>(i, o); case 14: return start<h2::ripemd_160>(i, o); case 15: return start<h2::ripemd_128>(i, o);
    case 16: return start<h2::hmac_md5_128>(i, o); case 17: return start<h2::hmac_sha1_160>(i, o); case 18: return start<h2::hmac_sha2_256>(i, o); case 19: return start<h2::hmac_sha2_224>(i, o);
    case 20: return start<h2::hmac_sha2_512>(i, o); case 21: return start<h2::hmac_sha2_384>(i, o); case 22: return start<h2::hmac_sha2_512_224>(i, o); case 23: return start<h2::hmac_sha2_512_256>(i, o);
    case 24: return start<h2::hmac_ripemd_160>(i, o); case 25: return start<h2::hmac_ripemd_128>(i, o);
#if defined(VSIM_RT) && !defined(VSIM_BIG) && !defined(VSIM_SERVE)
    case 26: return start<h2::murmur3_32, true>(i, o); case 27: return start<h2::murmur3_128, true>(i, o); case 28: return start<h2::spooky2_128, true>(i, o);
#endif
    default: return false;
    }
}
} // namespace node
