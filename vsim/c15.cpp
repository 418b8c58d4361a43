// C15: replicas that take the shortcuts which the traits advertise (memcmp instead of ==, raw images instead of messages,
// no byte swapping, no size) next to replicas that do not; objects live in dirty memory and are rebuilt after restarts.
#include "core.hpp"
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/digest.hpp>
#include <boost/hash2/flavor.hpp>
#include <boost/hash2/is_contiguously_hashable.hpp>
#include <boost/hash2/is_endian_independent.hpp>
#include <boost/hash2/is_trivially_equality_comparable.hpp>
#include <boost/hash2/has_constant_size.hpp>
#include <boost/array.hpp>
#include <boost/describe.hpp>
#include <array>
#include <cstring>
#include <deque>
#include <list>
#include <new>
#include <tuple>
#include <utility>
#include <vector>

using namespace sim;
namespace h2 = boost::hash2;

// ---------------------------------------------------------------- what a program defines
namespace zoo
{
enum Plain { p0, p1, p2, p70000 = 70000 };
enum class E8: unsigned char {}; enum class E16: short {}; enum class E64: long long {}; enum class EB: bool {};
enum Mod: unsigned {};                                          // equality of its own: declared not comparable
inline bool operator==(Mod a, Mod b) { return unsigned(a) % 256 == unsigned(b) % 256; }

// classes without padding; none of them is its bytes
struct Swapped { std::uint16_t a, b; };                         // message: b, a
struct Modulo { std::uint32_t v; };                             // equal modulo 256
struct Letter { unsigned char c; };                             // equal without regard to case
struct Unit {};                                                 // no members, one byte of storage
struct Sign { float f; };                                       // -0 == +0
struct Flags { unsigned a: 3, b: 13; };
struct Ref { int const* p; };                                   // compares what it points to
struct Conv { short s; operator int() const { return s; } };    // converts
struct Poly { int i; virtual ~Poly() {} };
struct Over { char c; int i; };                                 // padding
struct alignas(8) Al { int i; };                                // padding at the end
struct Two { std::uint8_t v; };                                 // one byte that is hashed as two
union Either { std::int32_t i; std::uint32_t u; };
struct Desc { char c; short s; signed char d; };
BOOST_DESCRIBE_STRUCT(Desc, (), (c, s, d))
struct Dense { std::uint32_t a; std::uint16_t b, c; };          // no padding, but its order is that of the description
BOOST_DESCRIBE_STRUCT(Dense, (), (c, b, a))
struct Vow { std::uint16_t a, b; };                             // the program says: comparable
BOOST_DESCRIBE_STRUCT(Vow, (), (a, b))
struct Vow3 { unsigned char r, g, b; };                         // comparable and independent of byte order
BOOST_DESCRIBE_STRUCT(Vow3, (), (r, g, b))
struct __attribute__((packed)) Pack { std::uint32_t a; std::uint16_t b; };     // comparable, aligned like bytes, but not independent
template<class Tag> struct Id { std::uint64_t v; };             // partial specialization
inline int lower(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }

#define HA(T) template<class H, class F> void tag_invoke(h2::hash_append_tag const&, H& h, F const& f, T const& v)
HA(Swapped) { h2::hash_append(h, f, v.b); h2::hash_append(h, f, v.a); }
HA(Modulo) { h2::hash_append(h, f, (std::uint8_t)v.v); }
HA(Letter) { h2::hash_append(h, f, (std::uint8_t)lower(v.c)); }
HA(Unit) { (void)v; h2::hash_append(h, f, (std::uint16_t)0x1234); }
HA(Sign) { h2::hash_append(h, f, v.f); }
HA(Flags) { h2::hash_append(h, f, (std::uint8_t)v.a); h2::hash_append(h, f, (std::uint16_t)v.b); }
HA(Ref) { h2::hash_append(h, f, *v.p); }
HA(Conv) { h2::hash_append(h, f, (int)v); }
HA(Poly) { h2::hash_append(h, f, v.i); }
HA(Over) { h2::hash_append(h, f, v.c); h2::hash_append(h, f, v.i); }
HA(Al) { h2::hash_append(h, f, v.i); }
HA(Two) { h2::hash_append(h, f, (std::uint16_t)v.v); }
HA(Either) { h2::hash_append(h, f, v.i); }
HA(Pack) { h2::hash_append(h, f, (std::uint32_t)v.a); h2::hash_append(h, f, (std::uint16_t)v.b); }
template<class T, class H, class F> void tag_invoke(h2::hash_append_tag const&, H& h, F const& f, Id<T> const& v) { h2::hash_append(h, f, v.v); }

// containers
template<class T> struct View { T const* p; std::size_t n; using iterator = T const*; using const_iterator = T const*; using value_type = T; T const* begin() const { return p; } T const* end() const { return p + n; } T const* data() const { return p; } std::size_t size() const { return n; } };
template<class T> struct Inplace                                // capacity is constant, size is not
{
    std::vector<T> v; static constexpr std::size_t static_capacity = 4; static constexpr std::size_t max_size() { return 4; } static constexpr std::size_t capacity() { return 4; }
    using value_type = T; using iterator = T const*; using const_iterator = T const*; T const* begin() const { return v.data(); } T const* end() const { return v.data() + v.size(); } T const* data() const { return v.data(); } std::size_t size() const { return v.size(); }
};
template<class T> struct Always3                                // constant in fact, not declared
{
    T a[3]; using value_type = T; using iterator = T const*; using const_iterator = T const*; T const* begin() const { return a; } T const* end() const { return a + 3; } T const* data() const { return a; } static constexpr std::size_t size() { return 3; }
};
template<class T> struct Sworn3: Always3<T> { T const& front() const { return this->a[0]; } };          // declared
template<class T> struct Linked3 { std::list<T> l; using value_type = T; using iterator = typename std::list<T>::const_iterator; using const_iterator = iterator; iterator begin() const { return l.begin(); } iterator end() const { return l.end(); } };    // declared, not contiguous
template<class T> struct Heir: std::array<T, 3> {};             // tuple_size is not inherited
template<class T> struct Sized3: Always3<T> {};                 // a range with tuple_size, denied by the program
template<class T> struct Tup3: Always3<T> { T const& front() const { return this->a[0]; } };            // a range with tuple_size
}
template<> struct boost::hash2::is_trivially_equality_comparable<zoo::Mod>: std::false_type {};
template<> struct boost::hash2::is_trivially_equality_comparable<zoo::Vow>: std::true_type {};
template<> struct boost::hash2::is_trivially_equality_comparable<zoo::Vow3>: std::true_type {};
template<> struct boost::hash2::is_trivially_equality_comparable<zoo::Pack>: std::true_type {};
template<> struct boost::hash2::is_endian_independent<zoo::Vow3>: std::true_type {};
template<class T> struct boost::hash2::is_trivially_equality_comparable<zoo::Id<T>>: std::true_type {};
template<class T> struct boost::hash2::has_constant_size<zoo::Sworn3<T>>: std::true_type {};
template<class T> struct boost::hash2::has_constant_size<zoo::Linked3<T>>: std::true_type {};
template<class T> struct boost::hash2::has_constant_size<zoo::Sized3<T>>: std::false_type {};
template<class T> struct std::tuple_size<zoo::Sized3<T>>: std::integral_constant<std::size_t, 3> {};
template<class T> struct std::tuple_size<zoo::Tup3<T>>: std::integral_constant<std::size_t, 3> {};

namespace
{
using namespace zoo;
// a hash algorithm that keeps its message
struct Rec
{
    typedef std::uint64_t result_type;
    std::vector<unsigned char> msg; std::vector<std::pair<void const*, std::size_t>> calls;
    Rec() {} explicit Rec(std::uint64_t) {} Rec(unsigned char const*, std::size_t) {}
    void update(void const* p, std::size_t n) { unsigned char const* q = static_cast<unsigned char const*>(p); msg.insert(msg.end(), q, q + n); calls.emplace_back(p, n); }
    result_type result() { std::uint64_t x = 0; for(unsigned char c: msg) x = x * 131 + c; return x; }
};
struct Big16 { typedef std::uint16_t size_type; static constexpr h2::endian byte_order = h2::endian::big; };
struct Lit32 { typedef std::uint32_t size_type; static constexpr h2::endian byte_order = h2::endian::little; };
enum { NF = 3 };                                                // little 32, big 16, default (native 64)

struct Enc
{
    std::vector<unsigned char> b; bool big; int szw;
    explicit Enc(int fl): big(fl == 1), szw(fl == 0 ? 4 : fl == 1 ? 2 : 8) {}
    void num(std::uint64_t x, int w) { for(int i = 0; i < w; ++i) b.push_back((unsigned char)(x >> 8 * (big ? w - 1 - i : i))); }
    void size(std::size_t n) { num(n, szw); }
};

// ---------------------------------------------------------------- leaves: how to build one from a model, and what it should send
// promise: 1 the program says comparable, -1 the program says not, 0 the library decides; order: same for independence
template<class T> struct Leaf;
std::uint64_t const pool[] = { 0, 1, 2, 0x41, 0x61, 0x100, 0x101, 0x80, 0xff, 0x8000, 0x7fff, 0x12345678, 0x80000000u, 0xfffffffful, 0x8000000000000000ull, 0xfedcba9876543210ull, ~0ull };
enum { NPOOL = sizeof pool / sizeof *pool };
struct Plain0 { enum { promise = 0, order = 0 }; };
template<class T> struct Int: Plain0
{
    static void set(T& t, std::uint64_t m) { t = static_cast<T>(m); }
    static std::uint64_t canon(std::uint64_t m) { T t = static_cast<T>(m); std::uint64_t x = 0; std::memcpy(&x, &t, sizeof t); return x; }    // little-endian host
    static void enc(std::uint64_t m, Enc& e) { e.num(canon(m), sizeof(T)); }
};
#define INT(T, N) template<> struct Leaf<T>: Int<T> { static char const* name() { return N; } };
INT(bool, "bool") INT(char, "char") INT(signed char, "signed char") INT(unsigned char, "unsigned char") INT(short, "short") INT(unsigned short, "unsigned short") INT(int, "int") INT(unsigned, "unsigned") INT(long, "long") INT(unsigned long, "unsigned long") INT(long long, "long long") INT(unsigned long long, "unsigned long long")
INT(char16_t, "char16_t") INT(char32_t, "char32_t") INT(wchar_t, "wchar_t") INT(E8, "enum:uchar") INT(E16, "enum:short") INT(E64, "enum:long long") 
#if defined(__cpp_char8_t)
INT(char8_t, "char8_t")
#endif
template<> struct Leaf<EB>: Plain0 { static char const* name() { return "enum:bool"; } static void set(EB& t, std::uint64_t m) { t = static_cast<EB>(m & 1); } static std::uint64_t canon(std::uint64_t m) { return m & 1; } static void enc(std::uint64_t m, Enc& e) { e.num(m & 1, 1); } };
template<> struct Leaf<Plain>: Plain0 { static char const* name() { return "enum"; } static void set(Plain& t, std::uint64_t m) { t = static_cast<Plain>(m & 0x1ffff); } static std::uint64_t canon(std::uint64_t m) { return m & 0x1ffff; } static void enc(std::uint64_t m, Enc& e) { e.num(canon(m), 4); } };
template<> struct Leaf<Mod> { enum { promise = -1, order = 0 }; static char const* name() { return "enum with =="; } static void set(Mod& t, std::uint64_t m) { t = static_cast<Mod>((unsigned)m); } static std::uint64_t canon(std::uint64_t m) { return (unsigned)m; } static void enc(std::uint64_t m, Enc& e) { e.num((unsigned)m, 4); } };
int objects[64]; void fn0() {} void fn1() {}
template<> struct Leaf<void*>: Plain0 { static char const* name() { return "void*"; } static void set(void*& t, std::uint64_t m) { t = reinterpret_cast<void*>(m); } static std::uint64_t canon(std::uint64_t m) { return m; } static void enc(std::uint64_t m, Enc& e) { e.num(m, 8); } };
template<> struct Leaf<int const*>: Plain0 { static char const* name() { return "int const*"; } static void set(int const*& t, std::uint64_t m) { t = objects + m % 64; } static std::uint64_t canon(std::uint64_t m) { return m % 64; } static void enc(std::uint64_t m, Enc& e) { e.num(reinterpret_cast<std::uintptr_t>(objects + m % 64), 8); } };
template<> struct Leaf<void(*)()>: Plain0 { static char const* name() { return "function*"; } static void set(void(*&t)(), std::uint64_t m) { t = m & 1 ? fn1 : fn0; } static std::uint64_t canon(std::uint64_t m) { return m & 1; } static void enc(std::uint64_t m, Enc& e) { e.num(reinterpret_cast<std::uintptr_t>(m & 1 ? fn1 : fn0), 8); } };
template<> struct Leaf<std::nullptr_t>: Plain0 { static char const* name() { return "nullptr_t"; } static void set(std::nullptr_t&, std::uint64_t) {} static std::uint64_t canon(std::uint64_t) { return 0; } static void enc(std::uint64_t, Enc& e) { e.num(0, 8); } };
template<class T, class U> struct Flt: Plain0
{
    static U bits(std::uint64_t m) { static U const v[] = { 0, U(1) << (sizeof(U) * 8 - 1), 1, sizeof(U) == 4 ? U(0x3f800000u) : U(0x3ff0000000000000ull), sizeof(U) == 4 ? U(0xbf800000u) : U(0xbff0000000000000ull), U(0x00012345) }; return v[m % 6]; }
    static void set(T& t, std::uint64_t m) { U u = bits(m); std::memcpy(&t, &u, sizeof t); }
    static std::uint64_t canon(std::uint64_t m) { U u = bits(m); return u == U(1) << (sizeof(U) * 8 - 1) ? 0 : u; }
    static void enc(std::uint64_t m, Enc& e) { e.num(canon(m), sizeof(T)); }
};
template<> struct Leaf<float>: Flt<float, std::uint32_t> { static char const* name() { return "float"; } };
template<> struct Leaf<double>: Flt<double, std::uint64_t> { static char const* name() { return "double"; } };
#define LEAF(T, SET, CANON, ENC) template<> struct Leaf<T>: Plain0 { static char const* name() { return #T; } static void set(T& t, std::uint64_t m) { (void)t; (void)m; SET; } static std::uint64_t canon(std::uint64_t m) { (void)m; return CANON; } static void enc(std::uint64_t m, Enc& e) { (void)m; ENC; } };
#define U16(x) (std::uint16_t)(x)
LEAF(Swapped, (t.a = U16(m), t.b = U16(m >> 7)), (U16(m) | (std::uint64_t)U16(m >> 7) << 16), (e.num(U16(m >> 7), 2), e.num(U16(m), 2)))
LEAF(Modulo, t.v = (std::uint32_t)m, m & 255, e.num(m & 255, 1))
LEAF(Letter, t.c = (unsigned char)m, (std::uint64_t)lower((unsigned char)m), e.num(lower((unsigned char)m), 1))
LEAF(Unit, (void)0, 0, e.num(0x1234, 2))
LEAF(Sign, Leaf<float>::set(t.f, m), Leaf<float>::canon(m), Leaf<float>::enc(m, e))
LEAF(Flags, (t.a = m & 7, t.b = m >> 3 & 8191), m & 65535, (e.num(m & 7, 1), e.num(m >> 3 & 8191, 2)))
int const pointees[8] = { 5, 5, 6, 6, 7, 8, 9, -1 };
LEAF(Ref, t.p = pointees + m % 8, (std::uint32_t)pointees[m % 8], e.num((std::uint32_t)pointees[m % 8], 4))
LEAF(Conv, t.s = (short)m, U16(m), e.num((std::uint64_t)(std::int64_t)(short)m, 4))
LEAF(Poly, t.i = (int)m, (std::uint32_t)m, e.num(m, 4))
LEAF(Over, (t.c = (char)m, t.i = (int)(m >> 3)), (m & 255) | (std::uint64_t)(std::uint32_t)(m >> 3) << 8, (e.num(m, 1), e.num(m >> 3, 4)))
LEAF(Al, t.i = (int)m, (std::uint32_t)m, e.num(m, 4))
LEAF(Two, t.v = (std::uint8_t)m, m & 255, e.num(m & 255, 2))
LEAF(Either, t.i = (int)m, (std::uint32_t)m, e.num(m, 4))
LEAF(Desc, (t.c = (char)m, t.s = (short)(m >> 4), t.d = (signed char)(m >> 9)), (m & 255) | (std::uint64_t)U16(m >> 4) << 8 | (m >> 9 & 255) << 24, (e.num(m, 1), e.num(m >> 4, 2), e.num(m >> 9, 1)))
LEAF(Dense, (t.a = (std::uint32_t)m, t.b = U16(m >> 5), t.c = U16(m >> 11)), (std::uint32_t)m | (std::uint64_t)U16(m >> 5) << 32 | (std::uint64_t)U16(m >> 11) << 48, (e.num(m >> 11, 2), e.num(m >> 5, 2), e.num(m, 4)))
template<> struct Leaf<Vow> { enum { promise = 1, order = 0 }; static char const* name() { return "Vow"; } static void set(Vow& t, std::uint64_t m) { t.a = U16(m); t.b = U16(m >> 7); } static std::uint64_t canon(std::uint64_t m) { return U16(m) | (std::uint64_t)U16(m >> 7) << 16; } static void enc(std::uint64_t m, Enc& e) { e.num(U16(m), 2); e.num(U16(m >> 7), 2); } };
template<> struct Leaf<Vow3> { enum { promise = 1, order = 1 }; static char const* name() { return "Vow3"; } static void set(Vow3& t, std::uint64_t m) { t.r = (unsigned char)m; t.g = (unsigned char)(m >> 3); t.b = (unsigned char)(m >> 8); } static std::uint64_t canon(std::uint64_t m) { return (m & 255) | (m >> 3 & 255) << 8 | (m >> 8 & 255) << 16; } static void enc(std::uint64_t m, Enc& e) { e.num(m, 1); e.num(m >> 3, 1); e.num(m >> 8, 1); } };
template<> struct Leaf<Pack> { enum { promise = 1, order = 0 }; static char const* name() { return "Pack"; } static void set(Pack& t, std::uint64_t m) { t.a = (std::uint32_t)m; t.b = U16(m >> 9); } static std::uint64_t canon(std::uint64_t m) { return (std::uint32_t)m | (std::uint64_t)U16(m >> 9) << 32; } static void enc(std::uint64_t m, Enc& e) { e.num(m, 4); e.num(m >> 9, 2); } };
template<> struct Leaf<Id<int>> { enum { promise = 1, order = 0 }; static char const* name() { return "Id<int>"; } static void set(Id<int>& t, std::uint64_t m) { t.v = m; } static std::uint64_t canon(std::uint64_t m) { return m; } static void enc(std::uint64_t m, Enc& e) { e.num(m, 8); } };

// ---------------------------------------------------------------- one slot of a replica
typedef std::vector<std::uint64_t> Model;                       // models of the elements
struct Ops
{
    char const* leaf; char const* kind; std::size_t size, align; std::size_t nmin, nmax; bool sized;
    void (*build)(void*, Model const&); void (*destroy)(void*);
    void (*append)(int, void const*, Rec&);
    void (*enc)(Model const&, Enc&);
    bool (*equal)(Model const&, Model const&);
    bool comparable, comparable_c, independent, independent_c, contig[NF], contig_c[NF], constant, constant_c;
    int promise, order, promise_size;                           // what the program declared about this very type
};
template<class T> void app(int fl, void const* p, Rec& r)
{
    T const& v = *static_cast<T const*>(p);
    switch(fl) { case 0: h2::hash_append(r, Lit32(), v); break; case 1: h2::hash_append(r, Big16(), v); break; default: h2::hash_append(r, h2::default_flavor(), v); }
}
template<class L> bool eq(Model const& a, Model const& b) { if(a.size() != b.size()) return false; for(std::size_t i = 0; i < a.size(); ++i) if(Leaf<L>::canon(a[i]) != Leaf<L>::canon(b[i])) return false; return true; }
template<class L, bool Sized> void encn(Model const& m, Enc& e) { for(std::uint64_t x: m) Leaf<L>::enc(x, e); if(Sized) e.size(m.size()); else if(m.empty()) e.num(0, 1); }
template<class T> void kill(void* p) { static_cast<T*>(p)->~T(); }

template<class T, class L, bool Sized> Ops ops(char const* kind, std::size_t nmin, std::size_t nmax, void (*build)(void*, Model const&), void (*destroy)(void*), int promise = 0, int order = 0, int psize = 0)
{
    Ops o;
    o.leaf = Leaf<L>::name(); o.kind = kind; o.size = sizeof(T); o.align = alignof(T); o.nmin = nmin; o.nmax = nmax; o.sized = Sized;
    o.build = build; o.destroy = destroy; o.append = app<T>; o.enc = encn<L, Sized>; o.equal = eq<L>;
    o.comparable = h2::is_trivially_equality_comparable<T>::value; o.comparable_c = h2::is_trivially_equality_comparable<T const>::value;
    o.independent = h2::is_endian_independent<T>::value; o.independent_c = h2::is_endian_independent<T const>::value;
    o.contig[0] = h2::is_contiguously_hashable<T, h2::endian::little>::value; o.contig_c[0] = h2::is_contiguously_hashable<T const, h2::endian::little>::value;
    o.contig[1] = h2::is_contiguously_hashable<T, h2::endian::big>::value; o.contig_c[1] = h2::is_contiguously_hashable<T const, h2::endian::big>::value;
    o.contig[2] = h2::is_contiguously_hashable<T, h2::endian::native>::value; o.contig_c[2] = h2::is_contiguously_hashable<T const, h2::endian::native>::value;
    o.constant = h2::has_constant_size<T>::value; o.constant_c = h2::has_constant_size<T const>::value;
    o.promise = promise; o.order = order; o.promise_size = psize;
    return o;
}
template<class L> void b_leaf(void* p, Model const& m) { L* t = ::new(p) L; Leaf<L>::set(*t, m[0]); }
template<class L, std::size_t N> void b_arr(void* p, Model const& m) { typedef L A[N]; L* t = reinterpret_cast<L*>(static_cast<A*>(p)); for(std::size_t i = 0; i < N; ++i) { ::new((void*)(t + i)) L; Leaf<L>::set(t[i], m[i]); } }
template<class T, class L> void b_fix(void* p, Model const& m) { T* t = ::new(p) T; std::size_t i = 0; for(auto& x: *t) Leaf<L>::set(const_cast<L&>(x), m[i++]); }
template<class T, class L> void b_seq(void* p, Model const& m) { T* t = ::new(p) T(m.size()); std::size_t i = 0; for(auto& x: *t) Leaf<L>::set(x, m[i++]); }
template<class L> void b_inp(void* p, Model const& m) { Inplace<L>* t = ::new(p) Inplace<L>; t->v.resize(m.size()); std::size_t i = 0; for(auto& x: t->v) Leaf<L>::set(x, m[i++]); }
template<class L> void b_lnk(void* p, Model const& m) { Linked3<L>* t = ::new(p) Linked3<L>; t->l.resize(m.size()); std::size_t i = 0; for(auto& x: t->l) Leaf<L>::set(x, m[i++]); }
template<class L> void b_view(void* p, Model const& m) { View<L>* t = ::new(p) View<L>; L* q = static_cast<L*>(::operator new(sizeof(L) * (m.size() + 1))); for(std::size_t i = 0; i < m.size(); ++i) { ::new((void*)(q + i)) L; Leaf<L>::set(q[i], m[i]); } t->p = q; t->n = m.size(); }
template<class L> void k_view(void* p) { View<L>* t = static_cast<View<L>*>(p); ::operator delete(const_cast<L*>(t->p)); }
template<class L> void b_pair(void* p, Model const& m) { auto* t = ::new(p) std::pair<L, L>; Leaf<L>::set(t->first, m[0]); Leaf<L>::set(t->second, m[1]); }
template<class L> void b_tup(void* p, Model const& m) { auto* t = ::new(p) std::tuple<L, L, L>; Leaf<L>::set(std::get<0>(*t), m[0]); Leaf<L>::set(std::get<1>(*t), m[1]); Leaf<L>::set(std::get<2>(*t), m[2]); }
void k_none(void*) {}

std::vector<Ops>& table() { static std::vector<Ops> t; return t; }
template<class L> void leaf()
{
    auto& t = table();
    enum { P = Leaf<L>::promise, O = Leaf<L>::order };
    t.push_back(ops<L, L, false>("", 1, 1, b_leaf<L>, k_none, P, O));
    t.push_back(ops<L[3], L, false>("[3]", 3, 3, b_arr<L, 3>, k_none));
    t.push_back(ops<L[2][2], L, false>("[2][2]", 4, 4, b_arr<L, 4>, k_none));
    t.push_back(ops<std::array<L, 3>, L, false>("std::array<3>", 3, 3, b_fix<std::array<L, 3>, L>, k_none));
    t.push_back(ops<std::array<L, 0>, L, false>("std::array<0>", 0, 0, b_fix<std::array<L, 0>, L>, k_none));
    t.push_back(ops<boost::array<L, 3>, L, false>("boost::array<3>", 3, 3, b_fix<boost::array<L, 3>, L>, k_none));
    t.push_back(ops<std::deque<L>, L, true>("std::deque", 0, 5, b_seq<std::deque<L>, L>, kill<std::deque<L>>));
    t.push_back(ops<std::pair<L, L>, L, false>("std::pair", 2, 2, b_pair<L>, kill<std::pair<L, L>>));
    t.push_back(ops<std::tuple<L, L, L>, L, false>("std::tuple", 3, 3, b_tup<L>, kill<std::tuple<L, L, L>>));
    t.push_back(ops<View<L>, L, true>("View", 0, 5, b_view<L>, k_view<L>));
    t.push_back(ops<View<L>[1], L, true>("View[1]", 0, 5, b_view<L>, k_view<L>));
    t.push_back(ops<Always3<L>, L, true>("Always3", 3, 3, b_fix<Always3<L>, L>, k_none));
    t.push_back(ops<Sworn3<L>, L, false>("Sworn3", 3, 3, b_fix<Sworn3<L>, L>, k_none, 0, 0, 1));
    t.push_back(ops<Linked3<L>, L, false>("Linked3", 3, 3, b_lnk<L>, kill<Linked3<L>>, 0, 0, 1));
    t.push_back(ops<Heir<L>, L, true>("Heir", 3, 3, b_fix<Heir<L>, L>, k_none));
    t.push_back(ops<Sized3<L>, L, true>("Sized3", 3, 3, b_fix<Sized3<L>, L>, k_none, 0, 0, -1));
    t.push_back(ops<Tup3<L>, L, false>("Tup3", 3, 3, b_fix<Tup3<L>, L>, k_none));
}
template<class L> void leafv()
{
    leaf<L>();
    auto& t = table();
    t.push_back(ops<std::vector<L>, L, true>("std::vector", 0, 5, b_seq<std::vector<L>, L>, kill<std::vector<L>>));
    t.push_back(ops<Inplace<L>, L, true>("Inplace", 0, 4, b_inp<L>, kill<Inplace<L>>));
}
void prepare()
{
    leafv<char>(); leafv<signed char>(); leafv<unsigned char>(); leaf<bool>(); leafv<short>(); leafv<unsigned short>(); leafv<int>(); leafv<unsigned>(); leafv<long>(); leafv<unsigned long>(); leafv<long long>(); leafv<unsigned long long>();
    leafv<char16_t>(); leafv<char32_t>(); leafv<wchar_t>();
#if defined(__cpp_char8_t)
    leafv<char8_t>();
#endif
    leafv<E8>(); leafv<E16>(); leafv<E64>(); leafv<EB>(); leafv<Plain>(); leafv<Mod>(); leafv<void*>(); leafv<int const*>(); leafv<void(*)()>(); leafv<std::nullptr_t>(); leafv<float>(); leafv<double>();
    leafv<Swapped>(); leafv<Modulo>(); leafv<Letter>(); leafv<Unit>(); leafv<Sign>(); leafv<Flags>(); leafv<Ref>(); leafv<Conv>(); leafv<Poly>(); leafv<Over>(); leafv<Al>(); leafv<Two>(); leafv<Either>(); leafv<Desc>(); leafv<Dense>(); leafv<Vow>(); leafv<Vow3>(); leafv<Id<int>>(); leafv<Pack>();
}

struct Slot
{
    Ops const* o = nullptr; unsigned char* mem = nullptr; bool live = false; Model m;
    void put(Ops const& op, unsigned char dirt) 
    {
        drop();
        if(o != &op) { ::operator delete(mem, std::align_val_t(64)); mem = static_cast<unsigned char*>(::operator new(op.size + 64, std::align_val_t(64))); o = &op; }
        for(std::size_t i = 0; i < op.size; ++i) mem[i] = (unsigned char)(dirt + i * 59);
        asm volatile("" : : "r"(mem) : "memory");
        o->build(mem, m); live = true;
        asm volatile("" : : "r"(mem) : "memory");
    }
    void drop() { if(live) o->destroy(mem); live = false; }
    ~Slot() { drop(); ::operator delete(mem, std::align_val_t(64)); }
    Slot() {} Slot(Slot const&) = delete;
};

void replicas(Sim& S)
{
    Ops const& o = table()[S.strat((int)table().size())];
    S.ev("%s%s", o.leaf, o.kind);
    // declarations hold
    if((o.promise == 1 && !o.comparable) || (o.promise == -1 && o.comparable) || (o.order == 1 && !o.independent) || (o.promise_size == 1 && !o.constant) || (o.promise_size == -1 && o.constant))
        S.fail("not-honoured", "the traits of %s%s are not what the program says (%d %d %d)", o.leaf, o.kind, o.comparable, o.independent, o.constant);
    if(o.comparable != o.comparable_c || o.independent != o.independent_c || o.constant != o.constant_c || std::memcmp(o.contig, o.contig_c, sizeof o.contig) != 0)
        S.fail("const-differs", "%s%s and the const type are classified differently", o.leaf, o.kind);
    int n = 2 + (int)S.choose(5), domain = 2 + (int)S.choose(4);
    std::uint64_t dom[8];
    for(int i = 0; i < domain; ++i) { dom[i] = S.choose(4) ? pool[S.choose(NPOOL)] : S.edgy64(); if(i && S.chance(1, 4)) dom[i] = dom[i - 1] ^ (1ull << S.choose(64)); }
    std::vector<Slot> A(n), B(n);
    auto check = [&](Slot const& s, char const* who)
    {
        for(int fl = 0; fl < NF; ++fl)
        {
            Rec r; o.append(fl, s.mem, r);
            Enc e(fl); o.enc(s.m, e);
            S.oracle();
            if(r.calls.empty()) S.fail("no-update", "%s: hash_append of %s%s sends nothing", who, o.leaf, o.kind);
            if(r.msg != e.b) S.fail("message", "%s: %s%s flavor %d sends %s, the documented message is %s", who, o.leaf, o.kind, fl, hex(r.msg.data(), r.msg.size()).c_str(), hex(e.b.data(), e.b.size()).c_str());
            if(o.contig[fl])
            {
                // the image may be sent instead
                if(e.b.size() != o.size || std::memcmp(e.b.data(), s.mem, o.size) != 0) S.fail("image", "%s: %s%s is declared contiguously hashable, its bytes are %s, the documented message %s", who, o.leaf, o.kind, hex(s.mem, o.size).c_str(), hex(e.b.data(), e.b.size()).c_str());
                if(r.calls.size() != 1 || r.calls[0].first != s.mem || r.calls[0].second != o.size) S.fail("not-honoured", "%s%s is contiguously hashable, but is sent in %zu calls", o.leaf, o.kind, r.calls.size());
                S.probe("images"); S.nontrivial();
            }
            if(o.promise == 1 && (fl != 1 || o.order == 1) && !o.contig[fl]) S.fail("not-honoured", "%s is declared comparable, but is not contiguously hashable with flavor %d", o.leaf, fl);
        }
        if(o.comparable && o.independent) { Enc l(0), b(1); l.szw = b.szw = 4; o.enc(s.m, l); o.enc(s.m, b); if(l.b != b.b) S.fail("byte-order", "%s%s is declared independent of byte order: %s and %s", o.leaf, o.kind, hex(l.b.data(), l.b.size()).c_str(), hex(b.b.data(), b.b.size()).c_str()); S.oracle(); }
    };
    auto compare = [&](Slot const& x, Slot const& y)
    {
        bool same = o.equal(x.m, y.m);
        if(o.constant && x.m.size() != y.m.size()) S.fail("constant-size", "%s%s is declared of constant size, it has %zu and %zu elements", o.leaf, o.kind, x.m.size(), y.m.size());
        if(o.comparable)
        {
            bool bytes = std::memcmp(x.mem, y.mem, o.size) == 0; S.oracle(); S.nontrivial();
            if(same != bytes) S.fail("equality", "%s%s is declared comparable by bytes: values %s, bytes %s and %s", o.leaf, o.kind, same ? "equal" : "differ", hex(x.mem, o.size).c_str(), hex(y.mem, o.size).c_str());
            S.probe(same ? "equal_pairs" : "different_pairs");
        }
        if(same)
        {
            for(int fl = 0; fl < NF; ++fl) { Rec a, b; o.append(fl, x.mem, a); o.append(fl, y.mem, b); S.oracle(); if(std::strcmp(o.leaf, "enum with ==") != 0 && a.msg != b.msg) S.fail("equal-differ", "equal values of %s%s send %s and %s", o.leaf, o.kind, hex(a.msg.data(), a.msg.size()).c_str(), hex(b.msg.data(), b.msg.size()).c_str()); }
            S.nontrivial();
        }
    };
    auto write = [&](int i)
    {
        Model m(o.nmin + (o.nmax > o.nmin ? S.choose((std::uint32_t)(o.nmax - o.nmin + 1)) : 0));
        for(auto& x: m) x = dom[S.choose(domain)];
        A[i].m = m; A[i].put(o, (unsigned char)S.choose(256));
    };
    for(int i = 0; i < n; ++i) { write(i); B[i].m = A[i].m; B[i].put(o, (unsigned char)S.choose(256)); }
    struct Msg { int slot; Model m; std::vector<unsigned char> image; };
    std::vector<Msg> net;
    int ops_ = 6 + (int)S.choose(20);
    for(int k = 0; k < ops_; ++k)
    {
        S.step();
        int i = (int)S.choose(n), j = (int)S.choose(n);
        switch(S.choose(7))
        {
        case 0: write(i); check(A[i], "writer"); S.ev("write %d", i); break;
        case 1: { Msg g; g.slot = i; g.m = A[i].m; g.image.assign(A[i].mem, A[i].mem + o.size); net.push_back(g); if(S.chance(1, 5)) { net.push_back(g); S.fault("duplicate"); } break; }
        case 2:
            if(!net.empty())
            {
                std::size_t q = S.choose((std::uint32_t)net.size()); Msg g = net[q]; net.erase(net.begin() + (long)q); if(q) S.fault("reorder");
                if(S.chance(1, 5)) { S.fault("loss"); break; }
                // rebuilt by value in other memory; a comparable type may also be replaced by its image
                B[g.slot].m = g.m; B[g.slot].put(o, (unsigned char)S.choose(256));
                if(o.comparable && S.choose(2)) { if(std::memcmp(B[g.slot].mem, g.image.data(), o.size) != 0) S.fail("equality", "%s%s rebuilt from the same value has other bytes: %s and %s", o.leaf, o.kind, hex(B[g.slot].mem, o.size).c_str(), hex(g.image.data(), o.size).c_str()); S.probe("image_transfers"); }
                check(B[g.slot], "replica"); S.ev("deliver %d", g.slot);
                break;
            }
            break;
        case 3: for(Slot& s: B) { s.put(o, (unsigned char)S.choose(256)); } S.fault("restart"); S.ev("restart"); break;
        case 4: compare(A[i], A[j]); break;
        case 5: compare(A[i], B[j]); break;
        case 6: check(A[i], "writer"); check(B[j], "replica"); break;
        }
    }
    for(int i = 0; i < n; ++i) { check(A[i], "writer"); check(B[i], "replica"); compare(A[i], B[i]); compare(A[i], A[(i + 1) % n]); }
    S.cov((std::uint64_t)(&o - table().data()), A[0].m.size(), domain);
}
}
static sim::Register reg_replicas("replicas", replicas, 20, prepare);

int main(int argc, char** argv) { return sim::main_(argc, argv, "C15", BUILD_NAME); }
