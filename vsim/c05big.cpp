// C05: ranges too long for 32-bit counters, against a counting hash that keeps the tail of the message.
#include "core.hpp"
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/digest.hpp>
#include <sys/mman.h>
#include <unistd.h>
#include <cstdio>
#include <cstring>
#include <iterator>

using sim::Sim; using sim::Bytes;
namespace h2 = boost::hash2;

namespace
{
// a user-defined hash algorithm: total length and the last 16 bytes
struct Tail
{
    std::uint64_t n = 0, lo = 0, hi = 0;
    using result_type = std::uint64_t;
    Tail() {} explicit Tail(std::uint64_t) {} Tail(unsigned char const*, std::size_t) {}
    void push(unsigned char b) { hi = hi << 8 | lo >> 56; lo = lo << 8 | b; }
    void update(void const* pv, std::size_t k)
    {
        unsigned char const* p = static_cast<unsigned char const*>(pv);
        n += k;
        if(k > 16) { p += k - 16; k = 16; }
        for(std::size_t i = 0; i < k; ++i) push(p[i]);
    }
    std::uint64_t result() { return lo * 0x9E3779B97F4A7C15ull + n; }
};
struct small_big { using size_type = std::uint32_t; static constexpr auto byte_order = h2::endian::big; };

// n elements that exist only while they are read; forward, single pass over nothing
template<class T> struct Gen
{
    using value_type = T; using difference_type = std::ptrdiff_t; using iterator_category = std::forward_iterator_tag; using reference = T; using pointer = T const*;
    std::uint64_t i = 0;
    T operator*() const { return (T)(i >> 3); }
    Gen& operator++() { ++i; return *this; }
    Gen operator++(int) { Gen t(*this); ++i; return t; }
    friend bool operator==(Gen a, Gen b) { return a.i == b.i; }
    friend bool operator!=(Gen a, Gen b) { return a.i != b.i; }
};
template<class T> struct GenR: Gen<T>
{
    using iterator_category = std::random_access_iterator_tag;
    GenR& operator++() { ++this->i; return *this; }
    friend std::ptrdiff_t operator-(GenR a, GenR b) { return (std::ptrdiff_t)(a.i - b.i); }
};

// one container type per access path of hash_append
template<class T> struct Listish { using value_type = T; using iterator = Gen<T>; using const_iterator = Gen<T>; std::uint64_t n; iterator begin() const { return Gen<T>(); } iterator end() const { Gen<T> g; g.i = n; return g; } std::size_t size() const { return n; } };
template<class T> struct Unordered: Listish<T> { using hasher = void; };
template<class T> struct View { using value_type = T; using iterator = T const*; using const_iterator = T const*; T const* p; std::size_t n; T const* begin() const { return p; } T const* end() const { return p + n; } T const* data() const { return p; } std::size_t size() const { return n; } };

// a few MiB of memory that appear again and again in one long address range
unsigned char const* window(std::uint64_t bytes)
{
    static unsigned char* w = nullptr; static std::uint64_t have = 0;
    std::uint64_t const unit = 64ull << 20;
    if(w && have >= bytes) return w;
    int fd = memfd_create("vsim", 0);
    if(fd < 0 || ftruncate(fd, (off_t)unit)) { std::perror("memfd"); _exit(70); }
    have = (bytes / unit + 2) * unit;
    w = (unsigned char*)mmap(nullptr, have, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(w == MAP_FAILED) { std::perror("mmap"); _exit(70); }
    for(std::uint64_t o = 0; o < have; o += unit) if(mmap(w + o, unit, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { std::perror("mmap"); _exit(70); }
    // content: written once through a second mapping
    unsigned char* m = (unsigned char*)mmap(nullptr, unit, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    for(std::uint64_t i = 0; i < unit; i += 4096) { std::uint64_t x = sim::mix64(i); std::memcpy(m + i, &x, 8); }
    munmap(m, unit); close(fd);
    return w;
}

template<class F> std::uint64_t tail_size(Tail const& t) 
{
    unsigned w = sizeof(typename F::size_type); std::uint64_t r = 0;
    for(unsigned i = 0; i < w; ++i) { unsigned char b = (unsigned char)(t.lo >> (8 * i)); unsigned k = F::byte_order == h2::endian::big ? i : w - 1 - i; r |= (std::uint64_t)b << (8 * k); }
    return r;
}
template<class F, class C> void run(Sim& S, char const* what, C const& c, std::uint64_t n, std::uint64_t body)
{
    Tail t; F f; h2::hash_append(t, f, c);
    std::uint64_t sz = tail_size<F>(t), want = (typename F::size_type)n;
    S.oracle(2); S.probe("elements_beyond_2^31", n > (1ull << 31)); S.probe("bytes_beyond_2^32", body > (1ull << 32)); S.nontrivial();
    if(t.n != body + sizeof(typename F::size_type)) S.fail("long-range-length", "%s of %llu elements: %llu bytes sent, %llu documented", what, (unsigned long long)n, (unsigned long long)t.n, (unsigned long long)(body + sizeof(typename F::size_type)));
    if(sz != want) S.fail("long-range-size", "%s of %llu elements: the size at the end of the message is %llu", what, (unsigned long long)n, (unsigned long long)sz);
}
template<class C> void run(Sim& S, int f, char const* what, C const& c, std::uint64_t n, std::uint64_t body)
{
    switch(f) { case 0: run<h2::default_flavor>(S, what, c, n, body); break; case 1: run<h2::big_endian_flavor>(S, what, c, n, body); break; default: run<small_big>(S, what, c, n, body); }
}
}

static void bigrange(Sim& S)
{
    int k = (int)S.strat(9); int f = (int)S.choose(3);
    std::uint64_t extra = 1 + S.choose(1000);
    S.ev("bigrange kind=%d flavor=%d", k, f); S.cov(k, f, extra & 7);
    switch(k)
    {
    case 0: { std::uint64_t n = (1ull << 32) + extra; View<unsigned char> v{ window(n), n }; run(S, f, "contiguous range of bytes", v, n, n); break; }
    case 1: { std::uint64_t n = (1ull << 30) + extra; View<int> v{ (int const*)window(n * 4), n }; run(S, S.choose(2) ? 0 : 2, "contiguous range of ints", v, n, n * 4); break; }
    case 2: { std::uint64_t n = (1ull << 31) + extra; View<char> v{ (char const*)window(n), n }; run(S, f, "contiguous range of chars", v, n, n); break; }
    case 3: { std::uint64_t n = (1ull << 31) + extra; Listish<char> v{ n }; run(S, f, "forward range of chars", v, n, n); break; }
    case 4: { std::uint64_t n = (1ull << 32) + extra; Listish<unsigned char> v{ n }; run(S, f, "forward range of bytes", v, n, n); break; }
    case 5: { std::uint64_t n = (1ull << 31) + extra; Unordered<char> v; v.n = n; run(S, f, "unordered range", v, n, 8); break; }
    case 6: { std::uint64_t n = (1ull << 32) + extra; Unordered<char> v; v.n = n; run(S, f, "unordered range", v, n, 8); break; }
    case 7:
        {
            std::uint64_t n = (1ull << 32) + extra; Tail t; GenR<unsigned char> a, b; b.i = n;
            h2::hash_append_sized_range(t, h2::big_endian_flavor(), a, b); S.oracle(2); S.nontrivial(); S.probe("elements_beyond_2^31");
            if(t.n != n + 8 || t.lo != n) S.fail("long-range-size", "random access range of %llu elements: %llu bytes sent, size %llx", (unsigned long long)n, (unsigned long long)t.n, (unsigned long long)t.lo);
            break;
        }
    default:
        {
            std::uint64_t n = (1ull << 32) + extra; unsigned char const* p = window(n); Tail t;
            h2::hash_append_range(t, h2::little_endian_flavor(), p, p + n); S.oracle(); S.nontrivial();
            if(t.n != n) S.fail("long-range-length", "hash_append_range over %llu bytes sent %llu", (unsigned long long)n, (unsigned long long)t.n);
        }
    }
}
static sim::Register reg_big("bigrange", bigrange, 240);

int main(int argc, char** argv) { return sim::main_(argc, argv, "C05", BUILD_NAME); }
