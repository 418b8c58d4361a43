// C14: a store that is sharded by get_integral_result, with routers that crash and a shard type that changes under way.
#include "core.hpp"
#include "algs.hpp"
#include <boost/hash2/get_integral_result.hpp>
#include <boost/hash2/digest.hpp>
#include <array>
#include <map>
#include <set>
#include <vector>
#include <limits>

using namespace sim;
namespace h2 = boost::hash2;

namespace
{
enum { MAXR = 64 };
struct Res { unsigned char b[MAXR]; };                         // integers little-endian
struct TInfo { char const* name; int bits; bool sign; };
TInfo const tinfo[] = { { "unsigned char", 8, false }, { "signed char", 8, true }, { "char", 8, std::numeric_limits<char>::is_signed }, { "unsigned short", 16, false }, { "short", 16, true }, { "char16_t", 16, false },
    { "unsigned", 32, false }, { "int", 32, true }, { "char32_t", 32, false }, { "wchar_t", 8 * (int)sizeof(wchar_t), std::numeric_limits<wchar_t>::is_signed },
    { "unsigned long", 8 * (int)sizeof(long), false }, { "long", 8 * (int)sizeof(long), true }, { "unsigned long long", 64, false }, { "long long", 64, true } };
enum { NT = 14 };
struct RType { char const* name; int bytes; bool integral; std::int64_t (*f[NT])(Res const&); };

template<class R> typename std::enable_if<std::is_integral<R>::value, R>::type make(Res const& s) { R r = 0; for(std::size_t i = 0; i < sizeof(R); ++i) r = static_cast<R>(r | static_cast<R>(static_cast<R>(s.b[i]) << (8 * i))); return r; }
template<class R> typename std::enable_if<!std::is_integral<R>::value, R>::type make(Res const& s) { R r = {}; for(std::size_t i = 0; i < r.size(); ++i) r[i] = s.b[i]; return r; }
template<class T, class R> std::int64_t red(Res const& s) { R const r = make<R>(s); return static_cast<std::int64_t>(h2::get_integral_result<T>(r)); }
template<class R> RType rtype(char const* n, int bytes)
{
    return RType{ n, bytes, std::is_integral<R>::value, { red<unsigned char, R>, red<signed char, R>, red<char, R>, red<unsigned short, R>, red<short, R>, red<char16_t, R>, red<unsigned, R>, red<int, R>, red<char32_t, R>, red<wchar_t, R>, red<unsigned long, R>, red<long, R>, red<unsigned long long, R>, red<long long, R> } };
}
RType const rtypes[] =
{
    rtype<unsigned char>("unsigned char", 1), rtype<unsigned short>("unsigned short", 2), rtype<unsigned>("unsigned", 4), rtype<unsigned long>("unsigned long", 8), rtype<unsigned long long>("unsigned long long", 8),
    rtype<h2::digest<8>>("digest<8>", 8), rtype<h2::digest<16>>("digest<16>", 16), rtype<h2::digest<20>>("digest<20>", 20), rtype<h2::digest<28>>("digest<28>", 28), rtype<h2::digest<32>>("digest<32>", 32), rtype<h2::digest<48>>("digest<48>", 48), rtype<h2::digest<64>>("digest<64>", 64),
    rtype<std::array<unsigned char, 8>>("array<8>", 8), rtype<std::array<unsigned char, 9>>("array<9>", 9), rtype<std::array<unsigned char, 33>>("array<33>", 33)
};
enum { NR = sizeof rtypes / sizeof *rtypes };

std::uint64_t low(Res const& r, int n) { std::uint64_t x = 0; for(int i = 0; i < n && i < 8; ++i) x |= (std::uint64_t)r.b[i] << (8 * i); return x; }
std::uint64_t mask(int bits) { return bits == 64 ? ~0ull : (1ull << bits) - 1; }

// what the property says about one value, with and without other values to compare it with
void law(Sim& S, RType const& R, int t, Res const& r, std::int64_t v)
{
    TInfo const& T = tinfo[t];
    std::uint64_t u = (std::uint64_t)v & mask(T.bits);
    std::int64_t back = T.sign && T.bits < 64 && u >> (T.bits - 1) ? (std::int64_t)(u | ~mask(T.bits)) : (std::int64_t)u;
    if(back != v) S.fail("not-a-value", "%s from %s: %lld is not a value of the type", T.name, R.name, (long long)v);
    if(!R.integral && u != (low(r, 8) & mask(T.bits))) S.fail("low-order-bytes", "%s from %s %s: %llx", T.name, R.name, hex(r.b, R.bytes).c_str(), (unsigned long long)u);
    if(R.integral && R.bytes * 8 == T.bits && u != low(r, R.bytes)) S.fail("same-width", "%s from %s %llx: %llx", T.name, R.name, (unsigned long long)low(r, R.bytes), (unsigned long long)u);
    S.oracle();
}

struct Key { Res r; };

void store(Sim& S)
{
    RType const& R = rtypes[S.strat(NR)];
    int t = (int)S.strat(NT);
    // the population
    std::size_t n = 1 + S.choose(S.choose(4) ? 40 : 400);
    bool big = S.choose(16) == 15; if(big) n = 1024;
    int how = R.integral ? (int)S.choose(4) : (int)S.choose(2);
    std::vector<Key> keys(n);
    ref::Alg alg = ref::NALG;
    if(how == 1)
    {
        std::vector<ref::Alg> fit;
        for(int a = 0; a < ref::NALG; ++a) if((int)ref::digest_size((ref::Alg)a) == R.bytes && ref::integral((ref::Alg)a) == R.integral) fit.push_back((ref::Alg)a);
        if(!fit.empty()) alg = S.pick(fit); else how = 0;
    }
    std::uint64_t base = S.edgy64(), stride = how == 3 ? 1ull << S.choose(8 * R.bytes < 64 ? 8 * R.bytes : 64) : 1 + S.choose(5);
    std::uint64_t seed = S.u64();
    {
    Synth y(S, n > 40);
    for(std::size_t i = 0; i < n; ++i)
    {
        Res& r = keys[i].r; std::memset(r.b, 0, sizeof r.b);
        if(how == 0) S.fill(r.b, R.bytes);
        else if(how == 1) { algs::Obj o; o.dirty(S.dirt()); o.seed(alg, seed); unsigned char b[8]; for(int k = 0; k < 8; ++k) b[k] = (unsigned char)(i >> (8 * k)); o.update(b, 8, false); o.vt().result(o.mem, r.b); }
        else { std::uint64_t x = base + i * stride; for(int k = 0; k < R.bytes; ++k) r.b[k] = (unsigned char)(x >> (8 * k)); }
    }
    }
    bool uniform = how == 0 || (how == 1 && alg > ref::FNV64);      // FNV of consecutive keys is not
    S.ev("results %s %s, %zu keys, population %d", R.name, alg == ref::NALG ? "" : ref::name(alg), n, how);

    // routers remember where they sent a key; the journal is durable
    int nodes = 2 + (int)S.choose(3);
    std::vector<std::map<std::size_t, std::int64_t>> memo(nodes);
    std::map<std::int64_t, std::set<std::size_t>> shards;       // durable
    std::map<std::size_t, std::int64_t> journal;
    auto route = [&](int node, std::size_t k) -> std::int64_t
    {
        auto it = memo[node].find(k);
        if(it != memo[node].end()) return it->second;
        std::int64_t v = R.f[t](keys[k].r);
        law(S, R, t, keys[k].r, v);
        memo[node][k] = v;
        auto j = journal.find(k);
        if(j != journal.end() && j->second != v) S.fail("not-deterministic", "%s from %s %s: %llx now, %llx before", tinfo[t].name, R.name, hex(keys[k].r.b, R.bytes).c_str(), (unsigned long long)v, (unsigned long long)j->second);
        return v;
    };
    auto put = [&](int node, std::size_t k) { std::int64_t s = route(node, k); shards[s].insert(k); journal[k] = s; };
    auto same = [&](std::size_t a, std::size_t b) { return std::memcmp(keys[a].r.b, keys[b].r.b, R.bytes) == 0; };
    auto audit = [&]()
    {
        std::size_t total = 0;
        for(auto& s: shards)
        {
            total += s.second.size();
            // a type that can hold the whole result keeps different results apart
            if(R.integral && tinfo[t].bits >= 8 * R.bytes)
                for(std::size_t k: s.second) if(!same(k, *s.second.begin()))
                    S.fail("lost-information", "%s from %s: both %llx and %llx become %llx", tinfo[t].name, R.name, (unsigned long long)low(keys[k].r, R.bytes), (unsigned long long)low(keys[*s.second.begin()].r, R.bytes), (unsigned long long)s.first);
        }
        if(total != journal.size()) S.fail("conservation", "%zu entries in the shards, %zu were stored", total, journal.size());
        S.oracle();
        if(!uniform || journal.size() < 200) return;
        // every bit of the target varies, every bit of the result matters, and the ends of the target are spread
        int tb = tinfo[t].bits;
        std::uint64_t ones = 0, zeros = 0; std::set<unsigned> lo, hi; std::set<std::uint64_t> rs; std::vector<std::size_t> ks;
        for(auto& j: journal) { std::uint64_t u = (std::uint64_t)j.second & mask(tb); ones |= u; zeros |= ~u; lo.insert(u & 255); hi.insert((unsigned)(u >> (tb - 8))); ks.push_back(j.first); rs.insert(low(keys[j.first].r, R.bytes)); }
        if(rs.size() < 80) return;
        if((ones & zeros & mask(tb)) != mask(tb)) S.fail("constant-bits", "%s from %s: of %zu different results no bit but %llx varies", tinfo[t].name, R.name, rs.size(), (unsigned long long)(ones & zeros & mask(tb)));
        if(lo.size() < 40 || hi.size() < 40) S.fail("clustered", "%s from %s: %zu different results, %zu different low bytes, %zu different high bytes", tinfo[t].name, R.name, rs.size(), lo.size(), hi.size());
        int matter = R.integral ? 8 * R.bytes : std::min(tb, 64);
        for(int bit = 0; bit < matter; ++bit)
        {
            bool any = false;
            for(std::size_t i = 0; i < 64 && !any; ++i) { Res x = keys[ks[i]].r; x.b[bit / 8] ^= (unsigned char)(1 << bit % 8); std::int64_t v = R.f[t](x); law(S, R, t, x, v); any = v != journal[ks[i]]; }
            if(!any) S.fail("ignored-bit", "%s from %s: bit %d of the result has no effect", tinfo[t].name, R.name, bit);
        }
        S.probe("spread_audits"); S.nontrivial();
    };

    int ops = 8 + (int)S.choose(60), epochs = 0;
    std::size_t next = 0;
    for(int i = 0; i < ops; ++i)
    {
        S.step();
        int node = (int)S.choose(nodes);
        switch(S.choose(8))
        {
        default:
            {
                std::size_t m = 1 + S.choose(n / 4 + 1);
                for(; m && next < n; --m, ++next) { put(node, next); if(S.chance(1, 10)) { put((int)S.choose(nodes), next); S.fault("duplicate_request"); } }
                break;
            }
        case 3: case 4:
            if(next)
            {
                std::size_t k = S.choose(next); std::int64_t s = route(node, k);
                S.ev("get %zu by %d", k, node); S.oracle();
                auto it = shards.find(s);
                if(it == shards.end() || !it->second.count(k)) S.fail("lost-entry", "entry %zu is not in the shard that router %d computes", k, node);
                S.nontrivial();
            }
            break;
        case 5: memo[node].clear(); S.fault("router_crash"); S.ev("crash %d", node); break;
        case 6: audit(); break;
        case 7:
            {
                // another shard type: entries move one by one, the migration may crash and start again
                int t2 = (int)S.choose(NT); if(epochs++ > 5) break;
                audit();
                S.ev("reshard %s -> %s", tinfo[t].name, tinfo[t2].name); S.fault("reshard");
                std::map<std::size_t, std::int64_t> old = journal; int t1 = t;
                std::size_t stop = S.choose(3) == 2 ? S.choose(next + 1) : ~std::size_t(0);
                t = t2;
                for(int pass = 0; pass < 2; ++pass)
                {
                    shards.clear(); journal.clear(); for(auto& m: memo) m.clear();
                    std::size_t k = 0; bool cut = false;
                    for(; k < next; ++k) { if(pass == 0 && k == stop) { cut = true; break; } put((int)S.choose(nodes), k); }
                    if(!cut) break;
                    S.fault("migration_crash");
                }
                if(tinfo[t1].bits == tinfo[t].bits)
                    for(auto& j: journal) { S.oracle(); if(((std::uint64_t)j.second ^ (std::uint64_t)old[j.first]) & mask(tinfo[t].bits)) S.fail("sign-matters", "%s and %s from the same %s differ: %llx, %llx", tinfo[t1].name, tinfo[t].name, R.name, (unsigned long long)old[j.first], (unsigned long long)j.second); }
                break;
            }
        }
    }
    while(next < n && big) { put(0, next); ++next; }
    audit();
    S.cov((std::uint64_t)(&R - rtypes), t, how, std::min<std::size_t>(epochs, 3) * 8 + (n > 200 ? 7 : n / 40));
}
}
static sim::Register reg_store("store", store, 20);

int main(int argc, char** argv) { return sim::main_(argc, argv, "C14", BUILD_NAME); }
