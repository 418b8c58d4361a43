// C02: copies, restores and repeated results follow one state machine.
#include "core.hpp"
#include "algs.hpp"
#include <memory>

using sim::Sim; using sim::Bytes; using algs::Obj;

namespace
{
struct Slot { Obj o; ref::Hash r; int results = 0; std::size_t since = 0; };
}

SIM_SCENARIO(lifecycle)
{
    int const K = 2 + (int)S.choose(4);
    std::vector<std::unique_ptr<Slot>> v;
    for(int i = 0; i < K; ++i) { v.emplace_back(new Slot); v.back()->o.dirty((unsigned char)(S.dirt() + i)); }
    // stable storage: saved copies, which survive crashes of the host
    Slot disk[2]; disk[0].o.dirty(S.dirt()); disk[1].o.dirty((unsigned char)~S.dirt());
    ref::Alg main_alg = (ref::Alg)S.strat(ref::NALG);
    bool mixed = S.choose(2);
    int ops = 4 + (int)S.choose(40), forks = 0;
    std::size_t maxlen = S.choose(2) ? 40 : 400;

    auto alive = [&](int i) { return v[i]->o.live; };
    auto check = [&](int i, char const* why)
    {
        Slot& s = *v[i];
        Bytes w = s.r.result(); Bytes g;
        S.oracle();
        if(S.choose(4) == 3)
        {
            std::uint64_t e = ref::integral64(s.o.a, w), x = s.o.result64();
            S.ev("%s slot=%d %s result64 #%d", why, i, ref::name(s.o.a), s.results);
            if(e != x) S.fail("integral-result", "%s: result #%d reduced to 64 bits is %016llx, history implies %016llx", ref::name(s.o.a), s.results, (unsigned long long)x, (unsigned long long)e);
        }
        else
        {
            g = s.o.result();
            S.ev("%s slot=%d %s result #%d after %zu", why, i, ref::name(s.o.a), s.results, s.since);
            if(g != w) S.fail("state-machine", "%s: result #%d (%zu bytes since the last) is %s, the same history gives %s", ref::name(s.o.a), s.results, s.since, sim::hex(g).c_str(), sim::hex(w).c_str());
        }
        S.cov(s.o.a, s.results < 4 ? s.results : 4, s.since % ref::block_size(s.o.a));
        ++s.results; s.since = 0;
    };

    for(int k = 0; k < ops; ++k)
    {
        S.step();
        int i = (int)S.choose(K), j = (int)S.choose(K);
        Slot& s = *v[i];
        if(!alive(i) || S.chance(1, 14))
        {
            // construct
            ref::Alg a = mixed && S.choose(3) == 2 ? (ref::Alg)S.choose(ref::NALG) : main_alg;
            int kind = (int)S.choose(6);
            if(s.o.live) { s.o.reset(); S.probe("destroyed"); }
            s.o.dirty((unsigned char)S.choose(256));
            s.results = 0; s.since = 0;
            Bytes key;
            switch(kind)
            {
            case 0: s.o.def(a); s.r = ref::Hash(a); break;
            case 1: s.o.seed(a, 0); s.r = ref::Hash(a); break;             // documented as equivalent to the default
            case 2: { unsigned char c = 0; s.o.bytes(a, S.choose(2) ? &c : nullptr, 0); s.r = ref::Hash(a); break; }
            case 3: { std::uint64_t sd = S.edgy64(); s.o.seed(a, sd); s.r = ref::Hash(a, sd); break; }
            default: key = S.data(S.length(std::max<std::size_t>(8, ref::block_size(a)), 300)); s.o.bytes(a, key.data(), key.size()); s.r = ref::Hash(a, key.data(), key.size());
            }
            S.ev("construct slot=%d %s kind=%d keylen=%zu", i, ref::name(a), kind, key.size());
            continue;
        }
        switch(S.choose(12))
        {
        case 0: case 1: case 2:
            {
                Bytes d = S.data(S.length(ref::block_size(s.o.a), maxlen));
                bool u = S.choose(2);
                s.o.update(d.data(), d.size(), u); s.r.update(d); s.since += d.size();
                S.ev("update slot=%d n=%zu %c", i, d.size(), u ? 'u' : 'v');
                break;
            }
        case 3: check(i, "call"); break;
        case 4: check(i, "call"); check(i, "again"); S.probe("repeated_result"); break;
        case 5:
            if(alive(j) && v[j]->o.a == s.o.a)
            {
                // assignment, possibly to itself
                if(i == j) S.probe("self_assignment");
                bool mv = S.choose(2);
                if(mv) s.o.vt().move_assign(s.o.mem, v[j]->o.mem); else s.o.vt().assign(s.o.mem, v[j]->o.mem);
                if(i != j) { s.r = v[j]->r; s.results = v[j]->results; s.since = v[j]->since; if(mv) v[j]->o.reset(); }
                S.ev("assign slot=%d from=%d %s", i, j, mv ? "move" : "copy");
            }
            break;
        case 6: case 7:
            if(i != j)
            {
                v[j]->o.reset(); v[j]->o.dirty((unsigned char)S.choose(256));
                bool mv = S.choose(4) == 3;
                if(mv) v[j]->o.move(s.o); else v[j]->o.copy(s.o);
                v[j]->r = s.r; v[j]->results = s.results; v[j]->since = s.since;
                if(mv) s.o.reset();
                S.ev("copy slot=%d to=%d %s", i, j, mv ? "move" : "copy");
                S.probe("copied"); ++forks;
            }
            break;
        case 8:
            if(alive(j) && v[j]->o.a == s.o.a)
            {
                s.o.vt().swap(s.o.mem, v[j]->o.mem);
                if(i == j) S.probe("self_swap");
                std::swap(s.r, v[j]->r); std::swap(s.results, v[j]->results); std::swap(s.since, v[j]->since);
                S.ev("swap %d %d", i, j); S.probe("swapped"); ++forks;
            }
            break;
        case 9:
            {
                int d = (int)S.choose(2);
                disk[d].o.reset(); disk[d].o.dirty((unsigned char)S.choose(256)); disk[d].o.copy(s.o); disk[d].r = s.r; disk[d].results = s.results; disk[d].since = s.since;
                S.ev("save slot=%d disk=%d", i, d);
                break;
            }
        case 10:
            {
                // the host crashes: all live objects are gone, saved copies are restored into whatever memory holds now
                int d = (int)S.choose(2);
                if(!disk[d].o.live) break;
                S.fault("crash_restart"); ++forks;
                S.ev("crash restore=%d", d);
                for(int t = 0; t < K; ++t) { v[t]->o.reset(); v[t]->o.dirty((unsigned char)S.choose(256)); }
                for(int t = 0; t <= (int)S.choose(2); ++t)
                {
                    v[t]->o.copy(disk[d].o); v[t]->r = disk[d].r; v[t]->results = disk[d].results; v[t]->since = disk[d].since;
                }
                break;
            }
        default:
            {
                // twins: a copy and its original must agree whatever is done to either first
                Obj twin; twin.dirty((unsigned char)S.choose(256)); twin.copy(s.o);
                Bytes junk = S.data(S.choose(70)); twin.update(junk.data(), junk.size(), false); twin.result();   // abandoned copy
                twin.reset(); twin.copy(s.o);
                S.oracle();
                ref::Hash r(s.r);
                if(twin.result() != r.result()) S.fail("copy", "%s: a copy's result differs from its original's history", ref::name(s.o.a));
                S.ev("twin slot=%d", i); ++forks;
            }
        }
    }
    for(int i = 0; i < K; ++i) if(alive(i))
    {
        check(i, "drain"); check(i, "drain");
        Bytes d = S.data(S.choose(20)); v[i]->o.update(d.data(), d.size(), S.choose(2)); v[i]->r.update(d); v[i]->since += d.size();
        check(i, "drain");
    }
    if(forks) S.nontrivial();
}

// long sequences of results from one object (a seeded generator): every one of them must follow the model
SIM_SCENARIO(sequence)
{
    ref::Alg a = (ref::Alg)S.strat(ref::NALG);
    Obj o; o.dirty(S.dirt());
    ref::Hash r;
    Bytes key;
    switch(S.choose(3))
    {
    case 0: o.def(a); r = ref::Hash(a); break;
    case 1: { std::uint64_t s = S.edgy64(); o.seed(a, s); r = ref::Hash(a, s); break; }
    default: key = S.data(S.choose(200)); o.bytes(a, key.data(), key.size()); r = ref::Hash(a, key.data(), key.size());
    }
    Bytes d = S.data(S.length(ref::block_size(a), 300)); o.update(d.data(), d.size(), S.choose(2)); r.update(d);
    int n = 3 + (int)S.choose(S.chance(1, 10) ? 300 : 20);
    S.ev("sequence %s n=%d len=%zu", ref::name(a), n, d.size());
    for(int i = 0; i < n; ++i)
    {
        S.step();
        if(S.chance(1, 16)) { Obj t; t.dirty(S.dirt()); t.copy(o); o.reset(); o.dirty((unsigned char)i); o.copy(t); S.fault("crash_restart"); S.ev("crash at=%d", i); }
        if(S.chance(1, 8)) { Bytes x = S.data(S.choose(3 * ref::block_size(a))); o.update(x.data(), x.size(), false); r.update(x); }
        Bytes g = o.result(), w = r.result(); S.oracle();
        S.cov(5000 + a, i < 40 ? i : 40);
        if(g != w) S.fail("sequence", "%s: element %d of the output sequence is %s, expected %s", ref::name(a), i, sim::hex(g).c_str(), sim::hex(w).c_str());
    }
    S.nontrivial();
}

int main(int argc, char** argv) { return sim::main_(argc, argv, "C02", BUILD_NAME); }
