#include "ref.hpp"
#include "ref_tables.hpp"
#include <cstring>
#include <cstdlib>

namespace ref
{

typedef std::uint32_t u32;
typedef std::uint64_t u64;
typedef unsigned char u8;

static u32 rl(u32 x, int k) { k &= 31; return k ? (x << k) | (x >> (32 - k)) : x; }
static u64 rl(u64 x, int k) { k &= 63; return k ? (x << k) | (x >> (64 - k)) : x; }
static u32 rr(u32 x, int k) { return rl(x, 32 - k); }
static u64 rr(u64 x, int k) { return rl(x, 64 - k); }

static u64 le(u8 const* p, int n) { u64 r = 0; for(int i = n; i-- > 0;) r = (r << 8) | p[i]; return r; }
static u64 be(u8 const* p, int n) { u64 r = 0; for(int i = 0; i < n; ++i) r = (r << 8) | p[i]; return r; }
static void put_le(Bytes& b, u64 v, int n) { for(int i = 0; i < n; ++i) b.push_back((u8)(v >> (8 * i))); }
static void put_be(Bytes& b, u64 v, int n) { for(int i = n; i-- > 0;) b.push_back((u8)(v >> (8 * i))); }

struct Info { char const* name; std::size_t dig, blk; };

static Info const info[NALG] =
{
    {"fnv1a_32",4,1},{"fnv1a_64",8,1},{"xxhash_32",4,16},{"xxhash_64",8,32},{"siphash_32",4,4},{"siphash_64",8,8},
    {"md5_128",16,64},{"sha1_160",20,64},{"sha2_256",32,64},{"sha2_224",28,64},{"sha2_512",64,128},{"sha2_384",48,128},
    {"sha2_512_224",28,128},{"sha2_512_256",32,128},{"ripemd_160",20,64},{"ripemd_128",16,64},
    {"hmac_md5_128",16,64},{"hmac_sha1_160",20,64},{"hmac_sha2_256",32,64},{"hmac_sha2_224",28,64},{"hmac_sha2_512",64,128},{"hmac_sha2_384",48,128},
    {"hmac_sha2_512_224",28,128},{"hmac_sha2_512_256",32,128},{"hmac_ripemd_160",20,64},{"hmac_ripemd_128",16,64},
    {"murmur3_32",4,4},{"murmur3_128",16,16},{"spooky2_128",16,192}
};

char const* name(Alg a) { return info[a].name; }
std::size_t digest_size(Alg a) { return info[a].dig; }
std::size_t block_size(Alg a) { return info[a].blk; }
bool integral(Alg a) { return a <= SIP64 || a == MUR32; }
bool crypto(Alg a) { return a >= MD5 && a <= RMD128; }
bool is_hmac(Alg a) { return a >= HMAC_MD5 && a <= HMAC_RMD128; }
bool legacy(Alg a) { return a >= MUR32; }

// Every reference keeps its message tail in a vector and consumes whole blocks from its front.

template<class D> struct Base: State
{
    State* clone() const override { return new D(static_cast<D const&>(*this)); }
};

struct Saver { std::string s; void put(void const* p, std::size_t n) { s.append(static_cast<char const*>(p), n); } };
struct Loader { std::string const& s; std::size_t o; void get(void* p, std::size_t n) { if(o + n > s.size()) std::abort(); std::memcpy(p, s.data() + o, n); o += n; } };

// ---------------------------------------------------------------- Merkle-Damgard family

struct Md final: Base<Md>
{
    Alg a; u64 st[8]; u64 len = 0; Bytes pend;

    explicit Md(Alg alg): a(alg)
    {
        static u32 const iv5[5] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0 };
        for(int i = 0; i < 8; ++i)
        {
            switch(a)
            {
            case SHA256: st[i] = tab::sha256_h[i]; break;
            case SHA224: st[i] = tab::sha224_h[i]; break;
            case SHA512: st[i] = tab::sha512_h[i]; break;
            case SHA384: st[i] = tab::sha384_h[i]; break;
            case SHA512_224: case SHA512_256: st[i] = sha512t(a)[i]; break;
            default: st[i] = i < 5 ? iv5[i] : 0;
            }
        }
    }

    // FIPS 180-4, 5.3.6: IV generation function
    static u64 const* sha512t(Alg a)
    {
        static u64 t[2][8]; static bool done = false;
        if(!done)
        {
            done = true;
            for(int k = 0; k < 2; ++k)
            {
                Md m(SHA512);
                for(int i = 0; i < 8; ++i) m.st[i] ^= 0xa5a5a5a5a5a5a5a5ull;
                char const* s = k ? "SHA-512/256" : "SHA-512/224";
                m.update(reinterpret_cast<u8 const*>(s), 11);
                Bytes r = m.result();
                for(int i = 0; i < 8; ++i) t[k][i] = be(&r[8 * i], 8);
            }
        }
        return t[a == SHA512_256];
    }

    bool wide() const { return a == SHA512 || a == SHA384 || a == SHA512_224 || a == SHA512_256; }
    bool bigend() const { return !(a == MD5 || a == RMD160 || a == RMD128); }
    std::size_t blk() const { return wide() ? 128 : 64; }

    void block(u8 const* p)
    {
        switch(a)
        {
        case MD5: md5(p); break;
        case SHA1: sha1(p); break;
        case SHA256: case SHA224: sha256(p); break;
        case RMD160: rmd(p, true); break;
        case RMD128: rmd(p, false); break;
        default: sha512(p); break;
        }
    }

    void md5(u8 const* p)
    {
        static int const sh[4][4] = { {7,12,17,22},{5,9,14,20},{4,11,16,23},{6,10,15,21} };
        u32 x[16]; for(int i = 0; i < 16; ++i) x[i] = (u32)le(p + 4 * i, 4);
        u32 A = st[0], B = st[1], C = st[2], D = st[3];
        for(int i = 0; i < 64; ++i)
        {
            u32 f; int g;
            switch(i / 16)
            {
            case 0: f = (B & C) | (~B & D); g = i; break;
            case 1: f = (D & B) | (~D & C); g = (5 * i + 1) % 16; break;
            case 2: f = B ^ C ^ D; g = (3 * i + 5) % 16; break;
            default: f = C ^ (B | ~D); g = (7 * i) % 16; break;
            }
            u32 t = A + f + tab::md5_k[i] + x[g];
            A = D; D = C; C = B; B += rl(t, sh[i / 16][i % 4]);
        }
        st[0] = (u32)(st[0] + A); st[1] = (u32)(st[1] + B); st[2] = (u32)(st[2] + C); st[3] = (u32)(st[3] + D);
    }

    void sha1(u8 const* p)
    {
        u32 w[80];
        for(int i = 0; i < 16; ++i) w[i] = (u32)be(p + 4 * i, 4);
        for(int i = 16; i < 80; ++i) w[i] = rl(w[i-3] ^ w[i-8] ^ w[i-14] ^ w[i-16], 1);
        u32 v[5]; for(int i = 0; i < 5; ++i) v[i] = (u32)st[i];
        for(int i = 0; i < 80; ++i)
        {
            u32 f, k;
            if(i < 20) f = (v[1] & v[2]) | (~v[1] & v[3]), k = 0x5a827999;
            else if(i < 40) f = v[1] ^ v[2] ^ v[3], k = 0x6ed9eba1;
            else if(i < 60) f = (v[1] & v[2]) | (v[1] & v[3]) | (v[2] & v[3]), k = 0x8f1bbcdc;
            else f = v[1] ^ v[2] ^ v[3], k = 0xca62c1d6;
            u32 t = rl(v[0], 5) + f + v[4] + k + w[i];
            v[4] = v[3]; v[3] = v[2]; v[2] = rl(v[1], 30); v[1] = v[0]; v[0] = t;
        }
        for(int i = 0; i < 5; ++i) st[i] = (u32)(st[i] + v[i]);
    }

    void sha256(u8 const* p)
    {
        u32 w[64];
        for(int i = 0; i < 16; ++i) w[i] = (u32)be(p + 4 * i, 4);
        for(int i = 16; i < 64; ++i)
        {
            u32 s0 = rr(w[i-15], 7) ^ rr(w[i-15], 18) ^ (w[i-15] >> 3), s1 = rr(w[i-2], 17) ^ rr(w[i-2], 19) ^ (w[i-2] >> 10);
            w[i] = w[i-16] + s0 + w[i-7] + s1;
        }
        u32 v[8]; for(int i = 0; i < 8; ++i) v[i] = (u32)st[i];
        for(int i = 0; i < 64; ++i)
        {
            u32 S1 = rr(v[4], 6) ^ rr(v[4], 11) ^ rr(v[4], 25), ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
            u32 t1 = v[7] + S1 + ch + tab::sha256_k[i] + w[i];
            u32 S0 = rr(v[0], 2) ^ rr(v[0], 13) ^ rr(v[0], 22), mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            for(int j = 7; j > 0; --j) v[j] = v[j-1];
            v[4] += t1; v[0] = t1 + S0 + mj;
        }
        for(int i = 0; i < 8; ++i) st[i] = (u32)(st[i] + v[i]);
    }

    void sha512(u8 const* p)
    {
        u64 w[80];
        for(int i = 0; i < 16; ++i) w[i] = be(p + 8 * i, 8);
        for(int i = 16; i < 80; ++i)
        {
            u64 s0 = rr(w[i-15], 1) ^ rr(w[i-15], 8) ^ (w[i-15] >> 7), s1 = rr(w[i-2], 19) ^ rr(w[i-2], 61) ^ (w[i-2] >> 6);
            w[i] = w[i-16] + s0 + w[i-7] + s1;
        }
        u64 v[8]; for(int i = 0; i < 8; ++i) v[i] = st[i];
        for(int i = 0; i < 80; ++i)
        {
            u64 S1 = rr(v[4], 14) ^ rr(v[4], 18) ^ rr(v[4], 41), ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
            u64 t1 = v[7] + S1 + ch + tab::sha512_k[i] + w[i];
            u64 S0 = rr(v[0], 28) ^ rr(v[0], 34) ^ rr(v[0], 39), mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            for(int j = 7; j > 0; --j) v[j] = v[j-1];
            v[4] += t1; v[0] = t1 + S0 + mj;
        }
        for(int i = 0; i < 8; ++i) st[i] += v[i];
    }

    static u32 rf(int j, u32 x, u32 y, u32 z)
    {
        switch(j)
        {
        case 0: return x ^ y ^ z;
        case 1: return (x & y) | (~x & z);
        case 2: return (x | ~y) ^ z;
        case 3: return (x & z) | (y & ~z);
        default: return x ^ (y | ~z);
        }
    }

    void rmd(u8 const* p, bool big)
    {
        static int const rho[16] = { 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8 };
        // shifts by round and message word
        static int const sh[5][16] =
        {
            {11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8},
            {12,13,11,15,6,9,9,7,12,15,11,13,7,8,7,7},
            {13,15,14,11,7,7,6,8,13,14,13,12,5,5,6,9},
            {14,11,12,14,8,6,5,5,15,12,15,14,9,9,8,6},
            {15,12,13,13,9,5,8,6,14,11,12,11,8,6,5,5}
        };
        static u32 const kl[5] = { 0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e };
        static u32 const kr160[5] = { 0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0 };
        static u32 const kr128[4] = { 0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0 };
        int rounds = big ? 5 : 4;
        u32 x[16]; for(int i = 0; i < 16; ++i) x[i] = (u32)le(p + 4 * i, 4);
        u32 L[5], R[5];
        for(int i = 0; i < 5; ++i) L[i] = R[i] = (u32)st[i];
        int pl[16], pr[16];
        for(int i = 0; i < 16; ++i) { pl[i] = i; pr[i] = (9 * i + 5) % 16; }
        for(int r = 0; r < rounds; ++r)
        {
            for(int i = 0; i < 16; ++i)
            {
                for(int side = 0; side < 2; ++side)
                {
                    u32* v = side ? R : L;
                    int w = side ? pr[i] : pl[i];
                    u32 k = side ? (big ? kr160[r] : kr128[r]) : kl[r];
                    int fn = side ? rounds - 1 - r : r;
                    u32 t = v[0] + rf(fn, v[1], v[2], v[3]) + x[w] + k;
                    t = rl(t, sh[r][w]);
                    if(big)
                    {
                        t += v[4];
                        v[0] = v[4]; v[4] = v[3]; v[3] = rl(v[2], 10); v[2] = v[1]; v[1] = t;
                    }
                    else
                    {
                        v[0] = v[3]; v[3] = v[2]; v[2] = v[1]; v[1] = t;
                    }
                }
            }
            for(int i = 0; i < 16; ++i) { pl[i] = rho[pl[i]]; pr[i] = rho[pr[i]]; }
        }
        int n = big ? 5 : 4;
        u32 h[5];
        for(int i = 0; i < n; ++i) h[i] = (u32)(st[(i + 1) % n] + L[(i + 2) % n] + R[(i + 3) % n]);
        for(int i = 0; i < n; ++i) st[i] = h[i];
    }

    void update(u8 const* p, std::size_t n) override
    {
        len += n;
        std::size_t B = blk();
        if(!pend.empty())
        {
            std::size_t k = std::min(n, B - pend.size());
            pend.insert(pend.end(), p, p + k); p += k; n -= k;
            if(pend.size() == B) { block(pend.data()); pend.clear(); }
        }
        if(pend.empty())
        {
            while(n >= B) { block(p); p += B; n -= B; }
            pend.insert(pend.end(), p, p + n);
        }
    }

    Bytes result() override
    {
        u64 bits = len * 8;
        std::size_t B = blk(), L = wide() ? 16 : 8;
        Bytes pad(1, 0x80);
        while((pend.size() + pad.size() + L) % B) pad.push_back(0);
        if(wide()) put_be(pad, len >> 61, 8);
        if(bigend()) put_be(pad, bits, 8); else put_le(pad, bits, 8);
        update(pad.data(), pad.size());
        Bytes r;
        for(int i = 0; i < 8; ++i)
        {
            if(wide()) put_be(r, st[i], 8);
            else if(bigend()) put_be(r, st[i], 4);
            else put_le(r, st[i], 4);
        }
        r.resize(info[a].dig);
        return r;
    }

    std::string save() const override
    {
        Saver s; s.put(st, sizeof st); s.put(&len, 8); u64 n = pend.size(); s.put(&n, 8); s.put(pend.data(), pend.size()); return s.s;
    }
    void load(std::string const& x) override
    {
        Loader l{ x, 0 }; l.get(st, sizeof st); l.get(&len, 8); u64 n; l.get(&n, 8); pend.resize(n); if(n) l.get(pend.data(), n);
    }
};

// ---------------------------------------------------------------- HMAC (RFC 2104)

struct Hm final: Base<Hm>
{
    Alg a; std::unique_ptr<Md> in, out;
    static Alg under(Alg a) { return static_cast<Alg>(MD5 + (a - HMAC_MD5)); }
    Hm(Alg alg, u8 const* p, std::size_t n): a(alg), in(new Md(under(alg))), out(new Md(under(alg)))
    {
        std::size_t B = info[a].blk;
        Bytes key(p, p + n);
        if(n > B) { Md h(under(a)); h.update(p, n); key = h.result(); }
        key.resize(B);
        Bytes i(B), o(B);
        for(std::size_t k = 0; k < B; ++k) { i[k] = key[k] ^ 0x36; o[k] = key[k] ^ 0x5c; }
        in->update(i.data(), B); out->update(o.data(), B);
    }
    Hm(Hm const& r): Base<Hm>(), a(r.a), in(new Md(*r.in)), out(new Md(*r.out)) {}
    void update(u8 const* p, std::size_t n) override { in->update(p, n); }
    Bytes result() override
    {
        Bytes r = in->result();
        out->update(r.data(), r.size());
        return out->result();
    }
    std::string save() const override { Saver s; std::string x = in->save(), y = out->save(); u64 n = x.size(); s.put(&n, 8); s.put(x.data(), n); s.put(y.data(), y.size()); return s.s; }
    void load(std::string const& x) override { u64 n; std::memcpy(&n, x.data(), 8); in->load(x.substr(8, n)); out->load(x.substr(8 + n)); }
};

// ---------------------------------------------------------------- FNV-1a

struct Fn final: Base<Fn>
{
    Alg a; u64 h;
    explicit Fn(Alg alg): a(alg), h(alg == FNV32 ? 0x811c9dc5u : 0xcbf29ce484222325ull) {}
    void one(u8 c)
    {
        if(a == FNV32) h = (u32)(((u32)h ^ c) * 16777619u);
        else h = (h ^ c) * 1099511628211ull;
    }
    void update(u8 const* p, std::size_t n) override { for(std::size_t i = 0; i < n; ++i) one(p[i]); }
    Bytes result() override { Bytes r; put_le(r, h, (int)info[a].dig); one(0xFF); return r; }
    std::string save() const override { Saver s; s.put(&h, 8); return s.s; }
    void load(std::string const& x) override { Loader l{ x, 0 }; l.get(&h, 8); }
};

// ---------------------------------------------------------------- xxHash

template<class W> struct XxC;
template<> struct XxC<u32>
{
    static u32 p(int i) { static u32 const v[6] = { 0, 2654435761u, 2246822519u, 3266489917u, 668265263u, 374761393u }; return v[i]; }
    static u32 round(u32 acc, u32 in) { return rl(acc + in * p(2), 13) * p(1); }
};
template<> struct XxC<u64>
{
    static u64 p(int i) { static u64 const v[6] = { 0, 0x9E3779B185EBCA87ull, 0xC2B2AE3D27D4EB4Full, 0x165667B19E3779F9ull, 0x85EBCA77C2B2AE63ull, 0x27D4EB2F165667C5ull }; return v[i]; }
    static u64 round(u64 acc, u64 in) { return rl(acc + in * p(2), 31) * p(1); }
};

template<class W> struct Xx final: Base<Xx<W>>
{
    typedef XxC<W> C;
    enum { S = sizeof(W), B = 4 * sizeof(W) };
    W v[4]; u64 len = 0; Bytes pend;

    void init(W seed) { v[0] = seed + C::p(1) + C::p(2); v[1] = seed + C::p(2); v[2] = seed; v[3] = seed - C::p(1); }
    explicit Xx(W seed) { init(seed); }
    void hi(W s) { for(int i = 0; i < 4; ++i) v[i] = C::round(v[i], s); }

    void update(u8 const* p, std::size_t n) override
    {
        len += n;
        if(!pend.empty())
        {
            std::size_t k = std::min(n, (std::size_t)B - pend.size());
            pend.insert(pend.end(), p, p + k); p += k; n -= k;
            if(pend.size() == B) { for(int i = 0; i < 4; ++i) v[i] = C::round(v[i], (W)le(&pend[i * S], S)); pend.clear(); }
        }
        if(pend.empty())
        {
            for(; n >= B; p += B, n -= B) for(int i = 0; i < 4; ++i) v[i] = C::round(v[i], (W)le(p + i * S, S));
            pend.insert(pend.end(), p, p + n);
        }
    }

    Bytes result() override
    {
        static int const r4[4] = { 1, 7, 12, 18 };
        W h;
        if(len >= B)
        {
            h = 0;
            for(int i = 0; i < 4; ++i) h += rl(v[i], r4[i]);
            if(S == 8) for(int i = 0; i < 4; ++i) h = (h ^ C::round(0, v[i])) * C::p(1) + C::p(4);
        }
        else h = v[2] + C::p(5);
        h += (W)len;
        std::size_t i = 0;
        if(S == 8)
        {
            for(; i + 8 <= pend.size(); i += 8) { h ^= C::round(0, (W)le(&pend[i], 8)); h = rl(h, 27) * C::p(1) + C::p(4); }
            for(; i + 4 <= pend.size(); i += 4) { h ^= (W)le(&pend[i], 4) * C::p(1); h = rl(h, 23) * C::p(2) + C::p(3); }
            for(; i < pend.size(); ++i) { h ^= pend[i] * C::p(5); h = rl(h, 11) * C::p(1); }
        }
        else
        {
            for(; i + 4 <= pend.size(); i += 4) { h += (W)le(&pend[i], 4) * C::p(3); h = rl(h, 17) * C::p(4); }
            for(; i < pend.size(); ++i) { h += pend[i] * C::p(5); h = rl(h, 11) * C::p(1); }
        }
        // the library's continuation: round the length up, perturb the lanes with the unmixed value
        len += B - pend.size();
        pend.clear();
        v[0] += h; v[1] += h; v[2] -= h; v[3] -= h;
        if(S == 8) { h ^= h >> 33; h *= C::p(2); h ^= h >> 29; h *= C::p(3); h ^= h >> (S == 8 ? 32 : 0); }
        else { h ^= h >> 15; h *= C::p(2); h ^= h >> 13; h *= C::p(3); h ^= h >> 16; }
        Bytes r; put_le(r, h, S); return r;
    }
    std::string save() const override { Saver s; s.put(v, sizeof v); s.put(&len, 8); u64 n = pend.size(); s.put(&n, 8); s.put(pend.data(), n); return s.s; }
    void load(std::string const& x) override { Loader l{ x, 0 }; l.get(v, sizeof v); l.get(&len, 8); u64 n; l.get(&n, 8); pend.resize(n); if(n) l.get(pend.data(), n); }
};

// ---------------------------------------------------------------- SipHash-2-4 / HalfSipHash-2-4

template<class W> struct Si final: Base<Si<W>>
{
    enum { S = sizeof(W) };
    W v[4]; u64 len = 0; Bytes pend;

    Si(W k0, W k1)
    {
        if(S == 8)
        {
            v[0] = (W)0x736f6d6570736575ull; v[1] = (W)0x646f72616e646f6dull; v[2] = (W)0x6c7967656e657261ull; v[3] = (W)0x7465646279746573ull;
        }
        else { v[0] = v[1] = 0; v[2] = 0x6c796765; v[3] = 0x74656462; }
        v[0] ^= k0; v[1] ^= k1; v[2] ^= k0; v[3] ^= k1;
    }

    void rnd(int n)
    {
        static int const r64[6] = { 13, 32, 16, 21, 17, 32 }, r32[6] = { 5, 16, 8, 7, 13, 16 };
        int const* r = S == 8 ? r64 : r32;
        while(n--)
        {
            v[0] += v[1]; v[2] += v[3];
            v[1] = rl(v[1], r[0]) ^ v[0]; v[3] = rl(v[3], r[2]) ^ v[2];
            v[0] = rl(v[0], r[1]);
            v[2] += v[1]; v[0] += v[3];
            v[1] = rl(v[1], r[4]) ^ v[2]; v[3] = rl(v[3], r[3]) ^ v[0];
            v[2] = rl(v[2], r[5]);
        }
    }
    void word(u8 const* p) { W m = (W)le(p, S); v[3] ^= m; rnd(2); v[0] ^= m; }

    void update(u8 const* p, std::size_t n) override
    {
        len += n;
        for(; n && !pend.empty(); --n) { pend.push_back(*p++); if(pend.size() == S) { word(pend.data()); pend.clear(); } }
        for(; n >= S; n -= S, p += S) word(p);
        pend.insert(pend.end(), p, p + n);
    }
    Bytes result() override
    {
        Bytes b = pend; b.resize(S); b[S - 1] = (u8)len;
        word(b.data());
        v[2] ^= 0xff; rnd(4);
        len += S - pend.size(); pend.clear();
        W h = S == 8 ? v[0] ^ v[1] ^ v[2] ^ v[3] : v[1] ^ v[3];
        Bytes r; put_le(r, h, S); return r;
    }
    std::string save() const override { Saver s; s.put(v, sizeof v); s.put(&len, 8); u64 n = pend.size(); s.put(&n, 8); s.put(pend.data(), n); return s.s; }
    void load(std::string const& x) override { Loader l{ x, 0 }; l.get(v, sizeof v); l.get(&len, 8); u64 n; l.get(&n, 8); pend.resize(n); if(n) l.get(pend.data(), n); }
};

// ---------------------------------------------------------------- legacy: MurmurHash3

struct M32 final: Base<M32>
{
    u32 h; u64 len = 0; Bytes pend;
    static u32 k1(u32 k) { return rl(k * 0xcc9e2d51u, 15) * 0x1b873593u; }
    static u32 mix(u32 h, u32 k) { return rl(h ^ k1(k), 13) * 5 + 0xe6546b64u; }
    explicit M32(u32 s): h(s) {}
    void update(u8 const* p, std::size_t n) override
    {
        len += n;
        for(std::size_t i = 0; i < n; ++i) { pend.push_back(p[i]); if(pend.size() == 4) { h = mix(h, (u32)le(pend.data(), 4)); pend.clear(); } }
    }
    Bytes result() override
    {
        u32 x = h ^ k1((u32)le(pend.data(), (int)pend.size())) ^ (u32)len;
        x = (x ^ (x >> 16)) * 0x85ebca6bu; x = (x ^ (x >> 13)) * 0xc2b2ae35u; x ^= x >> 16;
        len += 4 - pend.size(); pend.clear();
        Bytes r; put_le(r, x, 4); return r;
    }
    std::string save() const override { Saver s; s.put(&h, 4); s.put(&len, 8); u64 n = pend.size(); s.put(&n, 8); s.put(pend.data(), n); return s.s; }
    void load(std::string const& x) override { Loader l{ x, 0 }; l.get(&h, 4); l.get(&len, 8); u64 n; l.get(&n, 8); pend.resize(n); if(n) l.get(pend.data(), n); }
};

struct M128 final: Base<M128>
{
    u64 a, b; u64 len = 0; Bytes pend;
    static u64 f(u64 k) { k ^= k >> 33; k *= 0xff51afd7ed558ccdull; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ull; k ^= k >> 33; return k; }
    static u64 ka(u64 k) { return rl((u64)(k * 0x87c37b91114253d5ull), 31) * 0x4cf5ad432745937full; }
    static u64 kb(u64 k) { return rl((u64)(k * 0x4cf5ad432745937full), 33) * 0x87c37b91114253d5ull; }
    M128(u64 x, u64 y): a(x), b(y) {}
    void update(u8 const* p, std::size_t n) override
    {
        len += n;
        for(std::size_t i = 0; i < n; ++i)
        {
            pend.push_back(p[i]);
            if(pend.size() == 16)
            {
                a ^= ka(le(&pend[0], 8)); a = rl(a, 27) + b; a = a * 5 + 0x52dce729;
                b ^= kb(le(&pend[8], 8)); b = rl(b, 31) + a; b = b * 5 + 0x38495ab5;
                pend.clear();
            }
        }
    }
    Bytes result() override
    {
        Bytes t = pend; t.resize(16);
        u64 x = a ^ ka(le(&t[0], 8)), y = b ^ kb(le(&t[8], 8));
        x ^= len; y ^= len; x += y; y += x; x = f(x); y = f(y); x += y; y += x;
        len += 16 - pend.size(); pend.clear();
        Bytes r; put_le(r, x, 8); put_le(r, y, 8); return r;
    }
    std::string save() const override { Saver s; s.put(&a, 8); s.put(&b, 8); s.put(&len, 8); u64 n = pend.size(); s.put(&n, 8); s.put(pend.data(), n); return s.s; }
    void load(std::string const& x) override { Loader l{ x, 0 }; l.get(&a, 8); l.get(&b, 8); l.get(&len, 8); u64 n; l.get(&n, 8); pend.resize(n); if(n) l.get(pend.data(), n); }
};

// ---------------------------------------------------------------- legacy: SpookyHash V2

struct Sp final: Base<Sp>
{
    u64 v[12]; u64 len = 0; Bytes pend;
    static u64 C() { return 0xdeadbeefdeadbeefull; }
    Sp(u64 s1, u64 s2) { for(int i = 0; i < 12; ++i) v[i] = i % 3 == 0 ? s1 : i % 3 == 1 ? s2 : C(); }

    static void smix(u64* h)
    {
        static int const r[12] = { 50,52,30,41,54,48,38,37,62,34,5,36 };
        for(int i = 0; i < 12; ++i)
        {
            int x = (i + 2) % 4, y = (i + 3) % 4, z = i % 4;   // rotate x, add y, xor into z
            h[x] = rl(h[x], r[i]); h[x] += h[y]; h[z] ^= h[x];
        }
    }
    static void send(u64* h)
    {
        static int const r[11] = { 15,52,26,51,28,9,47,54,32,25,63 };
        for(int i = 0; i < 11; ++i)
        {
            int x = (i + 3) % 4, y = (i + 2) % 4;
            h[x] ^= h[y]; h[y] = rl(h[y], r[i]); h[x] += h[y];
        }
    }
    static void mix(u64* s, u8 const* p)
    {
        static int const r[12] = { 11,32,43,31,17,28,39,57,55,54,22,46 };
        for(int i = 0; i < 12; ++i)
        {
            s[i] += le(p + 8 * i, 8);
            s[(i + 2) % 12] ^= s[(i + 10) % 12];
            s[(i + 11) % 12] ^= s[i];
            s[i] = rl(s[i], r[i]);
            s[(i + 11) % 12] += s[(i + 1) % 12];
        }
    }
    static void endp(u64* h)
    {
        static int const r[12] = { 44,15,34,21,38,33,10,13,38,53,42,54 };
        for(int i = 0; i < 12; ++i)
        {
            int a = (i + 11) % 12, b = (i + 1) % 12, c = (i + 2) % 12;
            h[a] += h[b]; h[c] ^= h[a]; h[b] = rl(h[b], r[i]);
        }
    }
    void update(u8 const* p, std::size_t n) override
    {
        len += n;
        pend.insert(pend.end(), p, p + n);
        std::size_t o = 0;
        while(pend.size() - o >= 192) { mix(v, &pend[o]); mix(v, &pend[o + 96]); o += 192; }
        pend.erase(pend.begin(), pend.begin() + o);
    }
    Bytes result() override
    {
        if(len < 192)
        {
            u64 h[4] = { v[0], v[1], C(), C() };
            std::size_t o = 0, m = pend.size();
            for(; m - o >= 32; o += 32)
            {
                h[2] += le(&pend[o], 8); h[3] += le(&pend[o + 8], 8); smix(h);
                h[0] += le(&pend[o + 16], 8); h[1] += le(&pend[o + 24], 8);
            }
            if(m - o >= 16) { h[2] += le(&pend[o], 8); h[3] += le(&pend[o + 8], 8); smix(h); o += 16; }
            if(m == o) { h[2] += C(); h[3] += C(); }
            else { Bytes t(pend.begin() + o, pend.end()); t.resize(16); h[2] += le(&t[0], 8); h[3] += le(&t[8], 8); }
            h[3] += (u64)len << 56;
            send(h);
            v[0] = h[0]; v[1] = h[1];
        }
        else
        {
            Bytes t = pend; u64 h[12]; std::memcpy(h, v, sizeof h);
            if(t.size() >= 96) { mix(h, t.data()); t.erase(t.begin(), t.begin() + 96); }
            u8 m = (u8)t.size();
            t.resize(96); t[95] = m;
            for(int i = 0; i < 12; ++i) h[i] += le(&t[8 * i], 8);
            endp(h); endp(h); endp(h);
            std::memcpy(v, h, sizeof h);
        }
        len += 192 - pend.size(); pend.clear();
        Bytes r; put_le(r, v[0], 8); put_le(r, v[1], 8); return r;
    }
    std::string save() const override { Saver s; s.put(v, sizeof v); s.put(&len, 8); u64 n = pend.size(); s.put(&n, 8); s.put(pend.data(), n); return s.s; }
    void load(std::string const& x) override { Loader l{ x, 0 }; l.get(v, sizeof v); l.get(&len, 8); u64 n; l.get(&n, 8); pend.resize(n); if(n) l.get(pend.data(), n); }
};

// ---------------------------------------------------------------- construction

static State* make(Alg a)
{
    switch(a)
    {
    case FNV32: case FNV64: return new Fn(a);
    case XXH32: return new Xx<u32>(0);
    case XXH64: return new Xx<u64>(0);
    case SIP32: return new Si<u32>(0, 0);
    case SIP64: return new Si<u64>(0, 0);
    case MUR32: return new M32(0);
    case MUR128: return new M128(0, 0);
    case SPOOKY: return new Sp(0, 0);
    default: return is_hmac(a) ? static_cast<State*>(new Hm(a, 0, 0)) : new Md(a);
    }
}

Hash::Hash(Alg a): s_(make(a)) {}

Hash::Hash(Alg a, std::uint64_t seed)
{
    u8 b[8]; for(int i = 0; i < 8; ++i) b[i] = (u8)(seed >> (8 * i));
    u32 lo = (u32)seed, hi = (u32)(seed >> 32);
    switch(a)
    {
    case XXH32: { Xx<u32>* x = new Xx<u32>(lo); if(hi) x->hi(hi); s_.reset(x); return; }
    case XXH64: s_.reset(new Xx<u64>(seed)); return;
    case SIP32: s_.reset(new Si<u32>(lo, hi)); return;
    case SIP64: s_.reset(new Si<u64>(seed, 0)); return;
    case MUR32: s_.reset(new M32(hi ? M32::mix(lo, hi) : lo)); return;
    case MUR128: s_.reset(new M128(seed, seed)); return;
    case SPOOKY: s_.reset(new Sp(seed, 0)); return;
    default: break;
    }
    if(seed == 0) { s_.reset(make(a)); return; }
    if(is_hmac(a)) { s_.reset(new Hm(a, b, 8)); return; }
    s_.reset(make(a));
    s_->update(b, 8);
    if(a != FNV32 && a != FNV64) s_->result();
}

Hash::Hash(Alg a, unsigned char const* p, std::size_t n)
{
    if(n == 0) { s_.reset(make(a)); return; }
    if(is_hmac(a)) { s_.reset(new Hm(a, p, n)); return; }
    switch(a)
    {
    case SIP32: if(n == 8) { s_.reset(new Si<u32>((u32)le(p, 4), (u32)le(p + 4, 4))); return; } break;
    case SIP64: if(n == 16) { s_.reset(new Si<u64>(le(p, 8), le(p + 8, 8))); return; } break;
    case MUR32:
        if(n <= 4) { s_.reset(new M32((u32)le(p, (int)n))); return; }
        s_.reset(new M32((u32)le(p, 4))); s_->update(p + 4, n - 4); s_->result(); return;
    case MUR128:
    case SPOOKY:
        {
            Bytes q(p, p + std::min<std::size_t>(n, 16)); q.resize(16);
            u64 x = le(&q[0], 8), y = le(&q[8], 8);
            if(a == MUR128) s_.reset(n <= 8 ? new M128(x, x) : new M128(x, y)); else s_.reset(new Sp(x, y));
            if(n > 16) { s_->update(p + 16, n - 16); s_->result(); }
            return;
        }
    default: break;
    }
    s_.reset(make(a));
    s_->update(p, n);
    if(a != FNV32 && a != FNV64) s_->result();
}

std::uint64_t integral64(Alg a, Bytes const& r)
{
    u64 x = le(r.data(), (int)std::min<std::size_t>(8, r.size()));
    if(integral(a) && info[a].dig == 4) x *= 0x7FFFFFFF7FFFFFFFull;
    return x;
}

} // namespace ref
