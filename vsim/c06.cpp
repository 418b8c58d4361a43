// C06: different container contents send different messages.
#include "values.hpp"
#include "large.hpp"

using sim::Sim; using sim::Bytes;
using namespace val;

namespace
{
// algorithms for which an accidental collision within a batch is out of the question, also after the 64-bit
// reduction and the sum of an unordered range
bool strong(ref::Alg a) { return ref::crypto(a) || ref::is_hmac(a) || a == ref::SIP64 || a == ref::XXH64 || a == ref::MUR128 || a == ref::SPOOKY; }

struct Fp { Bytes msg, digest; };

template<class T> void append(int fl, AnyHash& h, T const& v)
{
    switch(fl) { case 0: h2::hash_append(h, h2::default_flavor(), v); break; case 1: h2::hash_append(h, h2::little_endian_flavor(), v); break; case 2: h2::hash_append(h, h2::big_endian_flavor(), v); break; case 3: h2::hash_append(h, small_big(), v); break; default: h2::hash_append(h, tiny_little(), v); }
}

void at_least_one_byte(Sim& S, char const* what, std::size_t before, std::size_t after)
{
    S.oracle();
    if(after <= before) S.fail("empty-message", "hash_append of %s sent no bytes", what);
}

// the judgement on two replicas whose values are known
void judge(Sim& S, char const* type, ref::Alg a, std::uint64_t seed, int fl, Value const& ma, Value const& mb, Fp const& x, Fp const& y, char const* how)
{
    bool differ = ma.canon() != mb.canon();
    S.oracle(2);
    if(!differ)
    {
        if(x.msg != y.msg) S.fail("equal-differ", "%s: equal values sent different messages", type);
        return;
    }
    S.probe("different_values_compared");
    if(x.msg == y.msg || x.digest == y.digest)
    {
        // only a collision of the algorithm itself excuses this: the reference peer must see it, too
        Sink p(a, ref::Hash(a, seed)), q(a, ref::Hash(a, seed));
        encode(ma, flavor(fl), p); encode(mb, flavor(fl), q);
        bool excused = !strong(a) && (x.msg == y.msg ? p.msg == q.msg : p.h.result() == q.h.result());
        if(excused) { S.probe("algorithm_collision"); return; }
        S.fail(x.msg == y.msg ? "message-collision" : "digest-collision", "%s (%s, flavor %s, corruption %s): two different values have the same %s of %zu bytes: %s", type, ref::name(a), flavor(fl).name, how, x.msg == y.msg ? "message" : "digest",
            x.msg == y.msg ? x.msg.size() : x.digest.size(), sim::hex(x.msg == y.msg ? (x.msg.size() > 64 ? Bytes(x.msg.begin(), x.msg.begin() + 64) : x.msg) : x.digest).c_str());
    }
}
}

// replicas that get corrupted, and a scrubber that compares digests and repairs
SIM_SCENARIO(scrub)
{
    TypeOps const& T = types()[S.strat(types().size())];
    ref::Alg a = (ref::Alg)S.choose(ref::NALG); std::uint64_t seed = S.edgy64(); int fl = (int)S.choose(NFLAV);
    int const N = 2 + (int)S.choose(2);
    Cell primary; primary.gen(S, T);
    std::vector<std::unique_ptr<Cell>> rep;
    for(int i = 0; i < N; ++i) { rep.emplace_back(new Cell); rep.back()->rebuild(S, primary); }
    S.ev("scrub %s replicas=%d alg=%s flavor=%s", T.name, N, ref::name(a), flavor(fl).name);
    auto print = [&](Cell const& c) { Fp f; AnyHash h(a, seed); T.append(fl, h, c.mem); at_least_one_byte(S, T.name, 0, h.msg.size()); f.msg = h.msg; f.digest = h.digest(); return f; };
    int steps = 1 + (int)S.choose(8);
    for(int k = 0; k < steps; ++k)
    {
        S.step();
        int i = (int)S.choose(N);
        int hits = 1 + (int)S.choose(3);
        Value before = rep[(std::size_t)i]->model();
        for(int j = 0; j < hits; ++j) T.mutate(S, rep[(std::size_t)i]->mem);
        Value after = rep[(std::size_t)i]->model();
        bool changed = before.canon() != after.canon();
        if(changed) { S.fault("replica_corrupted"); S.nontrivial(); }
        S.ev("corrupt replica=%d hits=%d changed=%d", i, hits, changed);
        // scrub this replica against the primary and another replica
        Fp x = print(*rep[(std::size_t)i]), p = print(primary);
        judge(S, T.name, a, seed, fl, after, primary.model(), x, p, "replica corrupted");
        int o = (int)S.choose(N);
        if(o != i) judge(S, T.name, a, seed, fl, after, rep[(std::size_t)o]->model(), x, print(*rep[(std::size_t)o]), "replica corrupted");
        S.cov(sim::fnv(T.name, std::strlen(T.name)), std::min<std::size_t>(after.leaves(), 100), (std::uint64_t)changed, (std::uint64_t)fl);
        if(S.choose(3) == 0)
        {
            rep[(std::size_t)i]->rebuild(S, primary); S.probe("repaired"); S.ev("repair replica=%d", i);
            if(print(*rep[(std::size_t)i]).msg != p.msg) S.fail("equal-differ", "%s: a repaired replica still sends another message", T.name);
        }
        else if(S.choose(4) == 0) { primary.rebuild(S, *rep[(std::size_t)i]); S.ev("promote replica=%d", i); }
    }
}

// a pool of small values of one type: no two different ones may share a message
SIM_SCENARIO(pool)
{
    TypeOps const& T = types()[S.strat(types().size())];
    ref::Alg a = (ref::Alg)(ref::MD5 + S.choose(8)); std::uint64_t seed = S.edgy64(); int fl = (int)S.choose(NFLAV);
    int n = 4 + (int)S.choose(24);
    std::map<Bytes, std::string> seen; std::map<Bytes, std::string> digs;
    std::unique_ptr<Cell> cur(new Cell); cur->gen(S, T);
    int distinct = 0;
    for(int i = 0; i < n; ++i)
    {
        S.step();
        if(S.choose(6) == 5) cur->gen(S, T); else { std::unique_ptr<Cell> nx(new Cell); nx->rebuild(S, *cur); cur = std::move(nx); T.mutate(S, cur->mem); }
        std::string c = cur->model().canon();
        AnyHash h(a, seed); T.append(fl, h, cur->mem);
        at_least_one_byte(S, T.name, 0, h.msg.size());
        Bytes d = h.digest();
        S.oracle(2);
        auto r = seen.insert(std::make_pair(h.msg, c));
        if(r.second) ++distinct;
        if(!r.second && r.first->second != c) S.fail("message-collision", "%s: two different values in a pool of %d sent the same %zu bytes in flavor %s", T.name, n, h.msg.size(), flavor(fl).name);
        auto q = digs.insert(std::make_pair(d, c));
        if(!q.second && q.first->second != c) S.fail("digest-collision", "%s: two different values have the same %s digest", T.name, ref::name(a));
        S.ev("value %d bytes=%zu %llx", i, h.msg.size(), (unsigned long long)sim::fnv(c.data(), c.size()));
    }
    S.fault("value_corrupted", (std::uint64_t)distinct);
    S.cov(sim::fnv(T.name, std::strlen(T.name)), (std::uint64_t)distinct, (std::uint64_t)fl);
    if(distinct > 1) S.nontrivial();
}

// ---------------------------------------------------------------- boundaries between neighbouring containers

namespace
{
// the same flat content cut into groups at different places
typedef std::vector<std::size_t> Cuts;
Cuts cuts(Sim& S, std::size_t n, std::size_t groups) { Cuts c; for(std::size_t i = 0; i + 1 < groups; ++i) c.push_back(S.choose(n + 1)); std::sort(c.begin(), c.end()); return c; }
template<class G, class E> std::vector<G> split(std::vector<E> const& f, Cuts const& c)
{
    std::vector<G> r; std::size_t b = 0;
    for(std::size_t i = 0; i <= c.size(); ++i) { std::size_t e = i < c.size() ? c[i] : f.size(); r.push_back(G(f.begin() + (long)b, f.begin() + (long)e)); b = e; }
    return r;
}
// elements that look like encoded sizes
template<class E> std::vector<E> content(Sim& S, std::size_t n) { std::vector<E> v; for(std::size_t i = 0; i < n; ++i) v.push_back((E)S.choose(S.choose(4) ? 3 : 256)); return v; }

template<class G> void send(int form, int fl, AnyHash& h, std::vector<G> const& g)
{
    switch(form)
    {
    case 0: append(fl, h, g); break;                                                       // nested in a vector
    case 1: append(fl, h, std::list<G>(g.begin(), g.end())); break;                        // nested in a list
    case 2: for(auto& x: g) append(fl, h, x); break;                                       // one after the other
    case 3: if(g.size() == 2) append(fl, h, std::make_pair(g[0], g[1])); else for(auto& x: g) append(fl, h, x); break;
    case 4: if(g.size() == 3) append(fl, h, std::make_tuple(g[0], g[1], g[2])); else append(fl, h, std::deque<G>(g.begin(), g.end())); break;
    case 5: if(g.size() == 2) append(fl, h, std::array<G, 2>{ { g[0], g[1] } }); else append(fl, h, boost::container::stable_vector<G>(g.begin(), g.end())); break;
    case 6: { G arr[4]; if(g.size() <= 4) { for(std::size_t i = 0; i < g.size(); ++i) arr[i] = g[i]; append(fl, h, arr); } else append(fl, h, g); break; }
    default: { std::map<int, G> m; for(std::size_t i = 0; i < g.size(); ++i) m[(int)i] = g[i]; append(fl, h, m); }
    }
}

template<class G, class E> void shift(Sim& S, char const* what)
{
    std::size_t n = 1 + S.choose(7), groups = 2 + S.choose(3);
    std::vector<E> f = content<E>(S, n);
    Cuts c1 = cuts(S, n, groups), c2;
    bool same_count = S.choose(4) != 0;
    switch(S.choose(3))
    {
    case 0: c2 = c1; { std::size_t i = S.choose(c2.size()); if(c2[i] < (i + 1 < c2.size() ? c2[i + 1] : n)) ++c2[i]; else if(c2[i] > (i ? c2[i - 1] : 0)) --c2[i]; } break;   // one element moves across one boundary
    case 1: c2 = cuts(S, n, groups); break;
    default: c2 = same_count ? cuts(S, n, groups) : cuts(S, n, groups + S.choose(2) + 1);
    }
    int form = (int)S.choose(8), fl = (int)S.choose(NFLAV);
    if(c1.size() != c2.size() && form != 0 && form != 1 && form != 7) form = 0;             // only self-delimiting outer forms may have different counts
    if(form == 6 && groups > 4) form = 0;
    if(c1 == c2) { S.ev("shift same"); return; }
    ref::Alg a = (ref::Alg)S.choose(ref::NALG); std::uint64_t seed = S.edgy64();
    AnyHash h1(a, seed), h2(a, seed);
    send(form, fl, h1, split<G>(f, c1)); send(form, fl, h2, split<G>(f, c2));
    S.fault("boundary_shift"); S.nontrivial(); S.oracle(2);
    S.ev("shift %s n=%zu groups=%zu form=%d flavor=%s %llx %llx %llx", what, n, groups, form, flavor(fl).name, (unsigned long long)sim::fnv(h1.msg.data(), h1.msg.size()), (unsigned long long)sim::fnv(c1.data(), 8 * c1.size()), (unsigned long long)sim::fnv(c2.data(), 8 * c2.size()));
    S.cov(sim::fnv(what, std::strlen(what)), n, groups, (std::uint64_t)(form * 8 + fl));
    if(h1.msg == h2.msg) S.fail("boundary-collision", "%s: %zu elements grouped in two different ways (outer form %d, flavor %s) sent the same %zu bytes", what, n, form, flavor(fl).name, h1.msg.size());
    Bytes d1 = h1.digest(), d2 = h2.digest();
    if(d1 == d2 && strong(a)) S.fail("digest-collision", "%s: regrouped containers have the same digest", what);
}
// unordered inner containers: the reference decides whether the algorithm itself collides
template<class G, class E> void shift_unordered(Sim& S, char const* what)
{
    std::size_t n = 1 + S.choose(6);
    std::vector<E> f; for(std::size_t i = 0; i < n; ++i) f.push_back((E)(S.choose(3) + 3 * i));
    Cuts c1 = cuts(S, n, 2), c2 = cuts(S, n, 2);
    int fl = (int)S.choose(NFLAV), form = (int)S.choose(4);
    ref::Alg a = (ref::Alg)S.choose(ref::NALG); std::uint64_t seed = S.edgy64();
    auto b = [&](Cuts const& c) { std::vector<G> r; std::size_t i = 0; for(std::size_t k = 0; k <= c.size(); ++k) { std::size_t e = k < c.size() ? c[k] : n; G g; for(; i < e; ++i) g.insert(f[i]); r.push_back(g); } return r; };
    std::vector<G> g1 = b(c1), g2 = b(c2);
    AnyHash h1(a, seed), h2(a, seed);
    auto snd = [&](AnyHash& h, std::vector<G> const& g) { switch(form) { case 0: append(fl, h, std::make_pair(g[0], g[1])); break; case 1: append(fl, h, g); break; case 2: for(auto& x: g) append(fl, h, x); break; default: append(fl, h, std::array<G, 2>{ { g[0], g[1] } }); } };
    snd(h1, g1); snd(h2, g2);
    auto mod = [&](std::vector<G> const& g) { Value v = Value::group(form == 1 ? Value::SEQ : Value::FIX); for(auto& x: g) v.kids.push_back(val::model<G>(x)); return v; };
    S.fault("boundary_shift_unordered"); S.nontrivial();
    S.ev("shift %s n=%zu form=%d", what, n, form);
    S.cov(sim::fnv(what, std::strlen(what)), n, (std::uint64_t)form, (std::uint64_t)fl);
    Fp x{ h1.msg, h1.digest() }, y{ h2.msg, h2.digest() };
    judge(S, what, a, seed, fl, mod(g1), mod(g2), x, y, "boundary shift");
}
}

SIM_SCENARIO(boundary)
{
    switch(S.strat(11))
    {
    case 0: shift<std::vector<unsigned char>, unsigned char>(S, "vector<unsigned char>"); break;
    case 1: shift<std::vector<std::uint64_t>, std::uint64_t>(S, "vector<uint64_t>"); break;
    case 2: shift<std::string, char>(S, "string"); break;
    case 3: shift<std::list<std::uint64_t>, std::uint64_t>(S, "list<uint64_t>"); break;
    case 4: shift<std::deque<std::uint32_t>, std::uint32_t>(S, "deque<uint32_t>"); break;
    case 5: shift<std::forward_list<std::uint16_t>, std::uint16_t>(S, "forward_list<uint16_t>"); break;
    case 6: shift<std::vector<bool>, bool>(S, "vector<bool>"); break;
    case 7: shift<std::multiset<std::uint64_t>, std::uint64_t>(S, "multiset<uint64_t> (sorted content)"); break;
    case 8: shift_unordered<uset<std::uint64_t>, std::uint64_t>(S, "unordered_set<uint64_t>"); break;
    case 9: shift_unordered<umset<int>, int>(S, "unordered_multiset<int>"); break;
    default: shift_unordered<bfset<std::uint32_t>, std::uint32_t>(S, "unordered_flat_set<uint32_t>");
    }
}

// hundreds of elements move across the boundary between neighbouring containers
namespace
{
template<class G> void shift_large(Sim& S, char const* what)
{
    typedef typename G::value_type E;
    unsigned k = S.choose(3) ? 8 : (unsigned)(5 + S.choose(12)); std::size_t unit = (std::size_t)1 << k;
    std::size_t units = 1 + S.choose(k > 12 ? 2 : 5), rest = S.choose(4) ? 0 : S.choose(4);
    std::size_t groups = 2 + S.choose(2), n = units * unit + rest;
    auto aligned = [&] { Cuts c; for(std::size_t i = 0; i + 1 < groups; ++i) c.push_back(S.choose(units + 1) * unit); std::sort(c.begin(), c.end()); return c; };
    Cuts c1 = aligned(), c2 = aligned();
    if(c1 == c2) { S.ev("shift same"); return; }
    std::vector<E> f; std::uint64_t base = S.u64(); int shape = (int)S.choose(5);
    for(std::size_t i = 0; i < n; ++i) f.push_back((E)(shape ? 0 : sim::mix64(base + i) % 2));
    int form = (int)S.choose(8), fl = (int)S.choose(NFLAV);
    if(fl == 4 && n > 0xffff) fl = 1;                                                      // the flavor's own size type must hold the count
    AnyHash h1(ref::XXH64, base), h2(ref::XXH64, base);
    send(form, fl, h1, split<G>(f, c1)); send(form, fl, h2, split<G>(f, c2));
    S.fault("boundary_shift_large"); S.nontrivial(); S.oracle(2);
    S.ev("shift %s n=%zu unit=%zu groups=%zu form=%d flavor=%s %llx %llx", what, n, unit, groups, form, flavor(fl).name, (unsigned long long)sim::fnv(c1.data(), 8 * c1.size()), (unsigned long long)sim::fnv(c2.data(), 8 * c2.size()));
    S.cov(sim::fnv(what, std::strlen(what)), k, groups, (std::uint64_t)(form * 8 + fl));
    if(h1.msg == h2.msg) S.fail("boundary-collision", "%s: %zu elements grouped in two different ways (first boundary after %zu and after %zu elements, outer form %d, flavor %s) sent the same %zu bytes", what, n, c1[0], c2[0], form, flavor(fl).name, h1.msg.size());
    if(h1.digest() == h2.digest()) S.fail("digest-collision", "%s: regrouped containers have the same digest", what);
}
}
SIM_SCENARIO(masses)
{
    switch(S.strat(11))
    {
    case 0: shift_large<std::vector<unsigned char>>(S, "vector<unsigned char>"); break;
    case 1: shift_large<std::vector<std::uint64_t>>(S, "vector<uint64_t>"); break;
    case 2: shift_large<std::string>(S, "string"); break;
    case 3: shift_large<std::list<unsigned char>>(S, "list<unsigned char>"); break;
    case 4: shift_large<std::deque<char>>(S, "deque<char>"); break;
    case 5: shift_large<std::forward_list<std::uint16_t>>(S, "forward_list<uint16_t>"); break;
    case 6: shift_large<std::vector<bool>>(S, "vector<bool>"); break;
    case 7: shift_large<std::multiset<std::uint16_t>>(S, "multiset<uint16_t>"); break;
    case 8: shift_large<boost::container::deque<std::uint8_t>>(S, "boost deque<uint8_t>"); break;
    case 9: shift_large<std::deque<std::uint32_t>>(S, "deque<uint32_t>"); break;
    default: shift_large<std::u16string>(S, "u16string");
    }
}

// one element of a container of up to a hundred thousand is lost, duplicated, changed or moved
namespace
{
template<class C> void needle_in(Sim& S, char const* what, bool ordered, bool sorted, std::size_t most = 140000)
{
    typedef typename C::value_type V; typedef decltype(big::Elem<V>::make(0)) E;
    std::size_t n = big::size(S, most); int fl = (int)S.choose(NFLAV); std::uint64_t seed = S.u64(), base = S.u64(); int shape = (int)S.choose(3);
    if(fl == 4 && n > 0xfff0) fl = 3;                                                      // the flavor's own size type must hold the count
    std::uint64_t const gap = 2;
    typedef std::vector<std::uint64_t> Keys;
    Keys v; for(std::size_t i = 0; i < n; ++i) v.push_back(!ordered || sorted ? i * gap : shape == 0 ? 7 : shape == 1 ? sim::mix64(base + i) % 3 : sim::mix64(base + i));
    auto elems = [](Keys const& k) { std::vector<E> r; for(auto x: k) r.push_back(big::Elem<V>::make(x)); return r; };
    auto place = [&](std::size_t m) -> std::size_t
    {
        switch(S.choose(6)) { case 0: return m - 1; case 1: return 0; case 2: { std::size_t d = S.choose(20); return d < m ? m - 1 - d : 0; } case 3: return std::min<std::size_t>(m - 1, ((std::size_t)1 << S.choose(18)) + S.choose(3) - 1); default: return S.choose(m); }
    };
    Keys w(v); std::size_t i = place(n), j = i; int kind = (int)S.choose(sorted || !ordered ? 3 : 6); char const* name = "";
    switch(kind)
    {
    case 0: name = "changed"; w[i] = !ordered || sorted ? i * gap + 1 : ~w[i]; break;
    case 1: name = "lost"; w.erase(w.begin() + (long)i); break;
    case 2: name = "added"; if(!ordered || sorted) w.push_back(n * gap); else { std::uint64_t t = w[i]; w.insert(w.begin() + (long)i, t); } break;
    case 3: name = "swapped"; j = place(n); std::swap(w[i], w[j]); break;
    case 4: name = "appended"; w.push_back(0); break;
    default: { name = "moved"; j = place(n); std::uint64_t t = w[i]; w.erase(w.begin() + (long)i); w.insert(w.begin() + (long)j, t); }
    }
    std::vector<E> ev = elems(v), ew = elems(w);
    if(ew == ev) { S.ev("needle same"); return; }
    C a, b; big::build(S, a, ev); big::build(S, b, ew);
    AnyHash h1(ref::XXH64, seed), h2(ref::XXH64, seed);
    big::Ops<C>::append(fl, h1, a); big::Ops<C>::append(fl, h2, b);
    S.fault(kind == 1 ? "loss_in_large" : kind == 2 || kind == 4 ? "duplication_in_large" : kind == 0 ? "corruption_in_large" : "reordering_in_large"); S.nontrivial(); S.oracle(2);
    S.ev("needle %s n=%zu %s %zu %zu flavor=%s", what, n, name, i, j, flavor(fl).name);
    S.cov(sim::fnv(what, std::strlen(what)), n < 300 ? n : n & ~255ull, (std::uint64_t)kind, (std::uint64_t)fl);
    if(h1.msg == h2.msg) S.fail("needle-collision", "%s with %zu elements: element %zu %s (other place %zu), flavor %s: the same %zu bytes were sent", what, n, i, name, j, flavor(fl).name, h1.msg.size());
    if(h1.digest() == h2.digest()) S.fail("digest-collision", "%s: one element %s, same digest", what, name);
}
}
SIM_SCENARIO(needle)
{
    switch(S.strat(16))
    {
    case 0: needle_in<std::vector<unsigned char>>(S, "vector<unsigned char>", true, false); break;
    case 1: needle_in<std::string>(S, "string", true, false); break;
    case 2: needle_in<std::u16string>(S, "u16string", true, false); break;
    case 3: needle_in<std::vector<std::uint64_t>>(S, "vector<uint64_t>", true, false); break;
    case 4: needle_in<std::list<std::uint32_t>>(S, "list<uint32_t>", true, false); break;
    case 5: needle_in<std::deque<char>>(S, "deque<char>", true, false); break;
    case 6: needle_in<std::forward_list<std::uint16_t>>(S, "forward_list<uint16_t>", true, false); break;
    case 7: needle_in<std::vector<bool>>(S, "vector<bool>", true, false); break;
    case 8: needle_in<std::set<std::uint32_t>>(S, "set<uint32_t>", true, true); break;
    case 9: needle_in<std::map<std::uint32_t, std::uint16_t>>(S, "map<uint32_t,uint16_t>", true, true); break;
    case 10: needle_in<std::unordered_set<std::uint32_t>>(S, "unordered_set<uint32_t>", false, false, 3000); break;
    case 11: needle_in<std::unordered_map<std::uint32_t, std::uint64_t>>(S, "unordered_map<uint32_t,uint64_t>", false, false, 3000); break;
    case 12: needle_in<boost::unordered_flat_set<std::uint64_t>>(S, "unordered_flat_set<uint64_t>", false, false, 3000); break;
    case 13: needle_in<std::vector<std::string>>(S, "vector<string>", true, false, 20000); break;
    case 14: needle_in<boost::container::small_vector<std::uint8_t, 8>>(S, "small_vector<uint8_t,8>", true, false); break;
    default: needle_in<std::vector<std::int32_t>>(S, "vector<int32_t>", true, false);
    }
}

int main(int argc, char** argv) { return sim::main_(argc, argv, "C06", BUILD_NAME); }
