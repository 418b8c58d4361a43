// The real algorithms behind a uniform function table.
#pragma once
#include "ref.hpp"
#include <boost/hash2/fnv1a.hpp>
#include <boost/hash2/xxhash.hpp>
#include <boost/hash2/siphash.hpp>
#include <boost/hash2/md5.hpp>
#include <boost/hash2/sha1.hpp>
#include <boost/hash2/sha2.hpp>
#include <boost/hash2/ripemd.hpp>
#include <boost/hash2/legacy/murmur3.hpp>
#include <boost/hash2/legacy/spooky2.hpp>
#include <boost/hash2/get_integral_result.hpp>
#include <new>
#include <utility>
#include <cstring>
#include <type_traits>

namespace algs
{
using ref::Bytes;

struct VT
{
    std::size_t size, align;
    void (*def)(void*);
    void (*seed)(void*, std::uint64_t);
    void (*bytes)(void*, unsigned char const*, std::size_t);
    void (*copy)(void*, void const*);
    void (*move)(void*, void*);
    void (*assign)(void*, void const*);
    void (*move_assign)(void*, void*);
    void (*swap)(void*, void*);
    void (*destroy)(void*);
    void (*update_v)(void*, void const*, std::size_t);
    void (*update_u)(void*, unsigned char const*, std::size_t);
    void (*result)(void*, unsigned char*);          // digest bytes, integers little-endian
    std::uint64_t (*result64)(void*);               // get_integral_result<u64>( result() )
};

template<class R> typename std::enable_if<std::is_integral<R>::value>::type out(R r, unsigned char* p)
{
    for(std::size_t i = 0; i < sizeof(R); ++i) p[i] = static_cast<unsigned char>(r >> (8 * i));
}
template<class R> typename std::enable_if<!std::is_integral<R>::value>::type out(R const& r, unsigned char* p)
{
    for(std::size_t i = 0; i < r.size(); ++i) p[i] = r[i];
}

template<class H, bool Legacy> struct Upd { static void u(H& h, unsigned char const* p, std::size_t n) { h.update(p, n); } };
template<class H> struct Upd<H, true> { static void u(H& h, unsigned char const* p, std::size_t n) { h.update(static_cast<void const*>(p), n); } };

template<class H, bool Legacy> VT make()
{
    VT v;
    v.size = sizeof(H); v.align = alignof(H);
    v.def = [](void* m) { ::new(m) H; };
    v.seed = [](void* m, std::uint64_t s) { ::new(m) H(s); };
    v.bytes = [](void* m, unsigned char const* p, std::size_t n) { ::new(m) H(p, n); };
    v.copy = [](void* m, void const* s) { ::new(m) H(*static_cast<H const*>(s)); };
    v.move = [](void* m, void* s) { ::new(m) H(std::move(*static_cast<H*>(s))); };
    v.assign = [](void* m, void const* s) { *static_cast<H*>(m) = *static_cast<H const*>(s); };
    v.move_assign = [](void* m, void* s) { *static_cast<H*>(m) = std::move(*static_cast<H*>(s)); };
    v.swap = [](void* a, void* b) { using std::swap; swap(*static_cast<H*>(a), *static_cast<H*>(b)); };
    v.destroy = [](void* m) { static_cast<H*>(m)->~H(); };
    v.update_v = [](void* m, void const* p, std::size_t n) { static_cast<H*>(m)->update(p, n); };
    v.update_u = [](void* m, unsigned char const* p, std::size_t n) { Upd<H, Legacy>::u(*static_cast<H*>(m), p, n); };
    v.result = [](void* m, unsigned char* o) { out(static_cast<H*>(m)->result(), o); };
    v.result64 = [](void* m) { return boost::hash2::get_integral_result<std::uint64_t>(static_cast<H*>(m)->result()); };
    return v;
}

inline VT const& table(ref::Alg a)
{
    using namespace boost::hash2;
    static VT const t[ref::NALG] =
    {
        make<fnv1a_32, false>(), make<fnv1a_64, false>(), make<xxhash_32, false>(), make<xxhash_64, false>(), make<siphash_32, false>(), make<siphash_64, false>(),
        make<md5_128, false>(), make<sha1_160, false>(), make<sha2_256, false>(), make<sha2_224, false>(), make<sha2_512, false>(), make<sha2_384, false>(),
        make<sha2_512_224, false>(), make<sha2_512_256, false>(), make<ripemd_160, false>(), make<ripemd_128, false>(),
        make<hmac_md5_128, false>(), make<hmac_sha1_160, false>(), make<hmac_sha2_256, false>(), make<hmac_sha2_224, false>(), make<hmac_sha2_512, false>(), make<hmac_sha2_384, false>(),
        make<hmac_sha2_512_224, false>(), make<hmac_sha2_512_256, false>(), make<hmac_ripemd_160, false>(), make<hmac_ripemd_128, false>(),
        make<murmur3_32, true>(), make<murmur3_128, true>(), make<spooky2_128, true>()
    };
    return t[a];
}

enum { MAXOBJ = 1024 };

// owner of one real object in storage with controlled previous content
class Obj
{
public:
    alignas(16) unsigned char mem[MAXOBJ];
    ref::Alg a; bool live;
    Obj(): a(ref::FNV32), live(false) {}
    ~Obj() { reset(); }
    Obj(Obj const&) = delete; Obj& operator=(Obj const&) = delete;
    VT const& vt() const { return table(a); }
    void reset() { if(live) { live = false; vt().destroy(mem); } }
    void dirty(unsigned char b) { std::memset(mem, b, sizeof mem); }
    void def(ref::Alg x) { reset(); a = x; vt().def(mem); live = true; }
    void seed(ref::Alg x, std::uint64_t s) { reset(); a = x; vt().seed(mem, s); live = true; }
    void bytes(ref::Alg x, unsigned char const* p, std::size_t n) { reset(); a = x; vt().bytes(mem, p, n); live = true; }
    void copy(Obj const& o) { reset(); a = o.a; vt().copy(mem, o.mem); live = true; }
    void move(Obj& o) { reset(); a = o.a; vt().move(mem, o.mem); live = true; }
    void update(void const* p, std::size_t n, bool uch) { if(uch) vt().update_u(mem, static_cast<unsigned char const*>(p), n); else vt().update_v(mem, p, n); }
    Bytes result() { unsigned char t[64]; vt().result(mem, t); return Bytes(t, t + ref::digest_size(a)); }
    std::uint64_t result64() { return vt().result64(mem); }
};

} // namespace algs
