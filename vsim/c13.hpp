// C13: a key-value service whose tables hash their keys through the library.
#pragma once
#include "values.hpp"
#include <boost/hash2/get_integral_result.hpp>
#include <boost/unordered/unordered_node_map.hpp>
#include <unordered_map>

namespace svc
{
using sim::Sim; using sim::Bytes; using val::Value;

// allocator seam: operator new of the simulator (defined in c13.cpp)
extern bool armed; extern std::uint64_t allocs, fail_at; extern bool fired; extern unsigned char fill;
struct Arm { explicit Arm(std::uint64_t n) { allocs = 0; fail_at = n; fired = false; armed = n != 0; } ~Arm() { armed = false; } };

// how a service's hasher is seeded
struct Seed { int kind = 0; std::uint64_t u = 0; Bytes b; };
inline Seed gen_seed(Sim& S)
{
    Seed s; s.kind = (int)S.choose(3);
    if(s.kind == 1) s.u = S.edgy64();
    if(s.kind == 2) s.b = S.data(S.choose(3) ? S.choose(40) : 16 * S.choose(12));
    return s;
}
inline ref::Hash ref_of(ref::Alg a, Seed const& s) { return s.kind == 0 ? ref::Hash(a) : s.kind == 1 ? ref::Hash(a, s.u) : ref::Hash(a, s.b.data(), s.b.size()); }

// the documented hash function object (examples hash_with_any_seed and hash_32_64)
template<class H> class hash
{
    H h_;
public:
    hash(): h_() {}
    explicit hash(std::uint64_t seed): h_(seed) {}
    hash(unsigned char const* p, std::size_t n): h_(p, n) {}
    template<class T> std::size_t operator()(T const& v) const
    {
        H h(h_);
        boost::hash2::hash_append(h, {}, v);
        return boost::hash2::get_integral_result<std::size_t>(h.result());
    }
};
// ... and the one that constructs a new algorithm object for every key (hash_without_seed, hash_with_uint64_seed)
template<class H> class rehash_each
{
    Seed s_;
public:
    rehash_each() {}
    explicit rehash_each(std::uint64_t seed) { s_.kind = 1; s_.u = seed; }
    rehash_each(unsigned char const* p, std::size_t n) { s_.kind = 2; s_.b.assign(p, p + n); }
    template<class T> std::size_t operator()(T const& v) const
    {
        if(s_.kind == 0) { H h; boost::hash2::hash_append(h, {}, v); return boost::hash2::get_integral_result<std::size_t>(h.result()); }
        if(s_.kind == 1) { H h(s_.u); boost::hash2::hash_append(h, {}, v); return boost::hash2::get_integral_result<std::size_t>(h.result()); }
        H h(s_.b.data(), s_.b.size()); boost::hash2::hash_append(h, {}, v); return boost::hash2::get_integral_result<std::size_t>(h.result());
    }
};
template<class G> G make_hasher(Seed const& s)
{
    if(s.kind == 0) return G();
    if(s.kind == 1) return G(s.u);
    Bytes t(s.b); G g(t.data(), t.size());
    std::fill(t.begin(), t.end(), 0xdd);                    // the seed does not outlive the construction
    return g;
}

template<class K> struct Op { int what; K key; int v; };    // 1 put, 2 erase, 3 clear
struct Entry { int v; };

template<class Map, class G, ref::Alg A> struct Service
{
    using K = typename Map::key_type;
    Sim& S; Seed seed; Map m; std::map<std::string, int> model; std::deque<K> universe; std::vector<Op<K>> wal; std::size_t durable = 0; int next = 1;

    static std::string canon(K const& k) { return val::model<K>(k).canon(); }
    explicit Service(Sim& s): S(s), seed(gen_seed(s)), m(s.choose(20), make_hasher<G>(seed))
    {
        std::size_t n = 2 + S.choose(12);
        bool long_keys = S.choose(30) == 29;
        for(std::size_t i = 0; i < n; ++i) { if(long_keys) val::draw_scale(S, 2, 8); { sim::Synth y(S, val::scale() > 1); universe.push_back(val::fresh<K>(S)); } val::scale() = 1; }
        if(S.choose(2)) for(std::size_t i = 0; i < n; ++i) { K k = val::twin<K>(S, universe[i]); val::Codec<K>::mutate(S, k); universe.push_back(k); }
    }
    K key() { return val::twin<K>(S, universe[S.choose(universe.size())]); }
    void describe(char const* nm) { S.ev("service %s alg=%s seedkind=%d u=%llx bytes=%zu universe=%zu", nm, ref::name(A), seed.kind, (unsigned long long)seed.u, seed.b.size(), universe.size()); }

    void purity(K const& k)
    {
        K t = val::twin<K>(S, k);
        G g = m.hash_function(); G g2(g); G g3 = make_hasher<G>(seed);
        std::size_t x = g(k), y = g2(t), z = g3(k), w = g(t); S.oracle();
        val::Sink e(A, ref_of(A, seed)); val::encode(val::model<K>(k), val::flavor(0), e);
        std::uint64_t r = ref::integral64(A, e.h.result());
        if(x != y || x != z || x != w || x != r) S.fail("hash-impure", "%s: hashes of equal keys under one seed: %016zx %016zx %016zx %016zx, expected %016llx", ref::name(A), x, y, z, w, (unsigned long long)r);
    }
    void lookup(K const& k)
    {
        auto i = m.find(k); auto j = model.find(canon(k)); S.oracle();
        bool want = j != model.end();
        if((i != m.end()) != want) S.fail(want ? "lost-entry" : "invented-entry", "%s: a key that is %sin the model is %sfound (table size %zu, model %zu)", ref::name(A), want ? "" : "not ", want ? "not " : "", m.size(), model.size());
        if(want && i->second != j->second) S.fail("wrong-value", "found %d, expected %d", i->second, j->second);
        if(m.count(k) != (want ? 1u : 0u)) S.fail("count", "count %zu", (std::size_t)m.count(k));
    }
    void audit()
    {
        for(auto& k: universe) { K t = val::twin<K>(S, k); lookup(t); }
        if(m.size() != model.size()) S.fail("size", "table has %zu entries, model %zu", m.size(), model.size());
        std::size_t c = 0;
        for(auto& e: m) { ++c; auto j = model.find(canon(e.first)); if(j == model.end() || j->second != e.second) S.fail("invented-entry", "iteration yields an entry the model does not have"); }
        if(c != model.size()) S.fail("lost-entry", "iteration yields %zu entries, model has %zu", c, model.size());
    }
    std::uint64_t plan() { return S.chance(1, 5) ? 1 + S.choose(6) : 0; }

    void restart()
    {
        // power loss: the table is gone, the log survives up to the last sync (and perhaps further)
        std::size_t keep = durable + S.choose(wal.size() - durable + 1);
        if(keep < wal.size()) S.fault("lost_log_tail");
        wal.resize(keep, Op<K>{ 0, K{}, 0 }); durable = keep;
        seed = gen_seed(S);
        m = Map(S.choose(100), make_hasher<G>(seed)); model.clear();
        for(auto& o: wal) apply(o);
        S.fault("crash_restart"); S.ev("restart log=%zu seedkind=%d size=%zu", keep, seed.kind, m.size());
    }
    void apply(Op<K> const& o)
    {
        K k = val::twin<K>(S, o.key);
        switch(o.what)
        {
        case 1: m[k] = o.v; model[canon(o.key)] = o.v; break;
        case 2: m.erase(k); model.erase(canon(o.key)); break;
        case 3: m.clear(); model.clear(); break;
        }
    }
    void log(int what, K const& k, int v) { wal.push_back(Op<K>{ what, k, v }); if(S.chance(3, 4)) durable = wal.size(); }

    void step()
    {
        S.step();
        int op = (int)S.choose(16);
        switch(op)
        {
        default:
            {
                K k = key(); int v = next++; int how = (int)S.choose(4); std::string c = canon(k); bool had = model.count(c) != 0; std::uint64_t f = plan(); bool ok = true; bool inserted = false;
                K k2(k);
                try
                {
                    Arm a(f);
                    switch(how) { case 0: m[k2] = v; inserted = !had; break; case 1: inserted = m.insert(std::make_pair(k2, v)).second; break; case 2: inserted = m.emplace(k2, v).second; break;
                        default: inserted = m.try_emplace(k2, v).second; }
                }
                catch(std::bad_alloc const&) { ok = false; if(!fired) throw; S.fault("alloc_failure"); }
                // insertion of one element either happens or does not
                if(ok)
                {
                    if(inserted != !had) S.fail(had ? "duplicate-insert" : "lost-entry", "%s: inserting a key that was %spresent said inserted=%d", ref::name(A), had ? "" : "not ", (int)inserted);
                    if(how == 0 || !had) { model[c] = v; log(1, k, v); }
                }
                S.ev("put how=%d ok=%d had=%d", how, ok, had);
                lookup(k);
                break;
            }
        case 8: case 9:
            {
                K k = key(); std::string c = canon(k); bool had = model.count(c) != 0; std::size_t n;
                if(S.choose(2)) n = m.erase(k); else { auto i = m.find(k); n = i != m.end(); if(n) m.erase(i); }
                S.oracle();
                if(n != (had ? 1u : 0u)) S.fail(had ? "lost-entry" : "invented-entry", "%s: erase of a key that was %spresent removed %zu", ref::name(A), had ? "" : "not ", n);
                model.erase(c); log(2, k, 0); S.ev("erase had=%d", had); lookup(k); break;
            }
        case 10:
            {
                std::uint64_t f = plan(); std::size_t n = S.choose(300); bool ok = true;
                try { Arm a(f); if(S.choose(2)) m.rehash(n); else m.reserve(n); } catch(std::bad_alloc const&) { ok = false; if(!fired) throw; S.fault("alloc_failure"); }
                S.ev("rehash %zu ok=%d", n, ok); if(S.choose(2)) audit(); break;
            }
        case 11:
            {
                // the table moves through a copy; copies answer like the original
                std::uint64_t f = plan(); bool ok = true;
                try { Arm a(f); Map t(m); switch(S.choose(3)) { case 0: armed = false; m = std::move(t); break; case 1: m.swap(t); break; default: armed = false; { Map u(t.begin(), t.end(), 0, make_hasher<G>(seed)); m.swap(u); } } }
                catch(std::bad_alloc const&) { ok = false; if(!fired) throw; S.fault("alloc_failure"); }
                S.ev("copy ok=%d", ok); audit(); break;
            }
        case 12: if(S.choose(3) == 2) { K k = key(); m.clear(); model.clear(); log(3, k, 0); S.ev("clear"); } break;
        case 13: { K k = key(); purity(k); S.ev("purity"); break; }
        case 14: restart(); break;
        case 15:
            {
                // replication to a table with another seed
                Seed s2 = gen_seed(S); Map t(S.choose(50), make_hasher<G>(s2));
                for(auto& e: m) t.insert(e);
                if(t.size() != model.size()) S.fail("size", "copied into a table with another seed: %zu entries, model %zu", t.size(), model.size());
                m = std::move(t); seed = s2; S.ev("reseed"); audit(); break;
            }
        }
    }
    static void run(Sim& S, char const* nm)
    {
        Service s(S); s.describe(nm);
        std::size_t n = 5 + S.choose(40);
        for(std::size_t i = 0; i < n; ++i) { s.step(); S.cov(sim::fnv(nm, std::strlen(nm)), A, std::min<std::size_t>(s.model.size(), 30), s.seed.kind); }
        s.audit();
        for(auto& k: s.universe) s.purity(k);
        S.nontrivial();
    }
};

struct Kind { char const* name; void (*run)(Sim&, char const*); };
std::vector<Kind>& kinds();
struct Add { Add(char const* n, void (*f)(Sim&, char const*)) { kinds().push_back(Kind{ n, f }); } };

// comparing standard unordered containers whose hashers have different seeds is not defined: such keys are compared by model
template<class K> struct Eq { using type = std::equal_to<K>; };
template<class K> struct Eq<val::uset<K>> { using type = val::SE; };
template<class K, class M> struct Eq<val::umap<K, M>> { using type = val::SE; };
template<class K> struct Eq<val::bfset<K>> { using type = val::SE; };
template<class K, class G> using smap = std::unordered_map<K, int, G, typename Eq<K>::type>;
template<class K, class G> using bmap = boost::unordered_map<K, int, G, typename Eq<K>::type>;
template<class K, class G> using fmap = boost::unordered_flat_map<K, int, G, typename Eq<K>::type>;
template<class K, class G> using nmap = boost::unordered_node_map<K, int, G, typename Eq<K>::type>;
#define SVC(N, MAP, G, H, A, ...) static svc::Add VAL_CAT(add_, __LINE__)(N, [](sim::Sim& S, char const* n) { using K = __VA_ARGS__; using F = svc::G<boost::hash2::H>; svc::Service<svc::MAP<K, F>, F, ref::A>::run(S, n); });
}
