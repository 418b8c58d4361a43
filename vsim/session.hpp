// Seeded programs that use the library: shared by the simulators of threads (C04) and of fibers (C17).
#pragma once
#include "values.hpp"
#include "sched.hpp"
#include "vt.hpp"
#include <boost/hash2/get_integral_result.hpp>
#include <boost/hash2/digest.hpp>
#include <sstream>
#include <unordered_map>

using namespace sim;
namespace h2 = boost::hash2;

namespace
{
template<class H> struct StrHash
{
    H h;
    std::size_t operator()(std::string const& s) const { H c(h); h2::hash_append(c, h2::default_flavor(), s); return h2::get_integral_result<std::size_t>(c.result()); }
};
struct StrHashSip: StrHash<h2::siphash_64> {};
struct StrHashSha: StrHash<h2::sha2_256> {};

enum OpKind { DEF, SEED, KEY, UPD, RES, COPY, APPEND_SHARED, APPEND_OWN, DIRECT_SHARED, DIRECT_OWN, TEXT, CHARS, STREAM, CMP, INTEGRAL, LOOKUP, LOOKUP_SHA, R64, NOPS };
struct Op { int k; int a, b, c; std::uint64_t x; std::size_t off, n; bool u; };
typedef h2::digest<20> D20; typedef h2::digest<64> D64;

struct Shared
{
    Bytes src;
    algs::Obj proto[3];
    val::Cell cell[3]; int ncell;
    D20 d20[2]; D64 d64[2];
    std::unordered_map<std::string, int, StrHashSip> map; std::unordered_map<std::string, int, StrHashSha> map2;
    std::vector<std::string> keys;
};
struct Prog { std::vector<Op> ops; Bytes own; val::Cell cell; std::vector<std::string> keys; };

void put(Bytes& o, void const* p, std::size_t n) { unsigned char const* q = static_cast<unsigned char const*>(p); o.insert(o.end(), q, q + n); }
template<class T> void put64(Bytes& o, T t) { std::uint64_t x = (std::uint64_t)t; put(o, &x, 8); }

// what one thread does; touches the shared things through const references only
void perform(Shared const& W, Prog const& P, Bytes& out)
{
    algs::Obj obj[2];
    obj[0].dirty(0x11); obj[1].dirty(0x22);
    for(Op const& op: P.ops)
    {
        algs::Obj& o = obj[op.a & 1];
        unsigned char const* s = (op.u ? W.src.data() : P.own.data()) + op.off;
        switch(op.k)
        {
        case DEF: o.def((ref::Alg)op.b); break;
        case SEED: o.seed((ref::Alg)op.b, op.x); break;
        case KEY: o.bytes((ref::Alg)op.b, s, op.n); break;
        case UPD: if(o.live) o.update(s, op.n, op.c); break;
        case RES: if(o.live) { unsigned char t[64]; o.vt().result(o.mem, t); put(out, t, ref::digest_size(o.a)); } break;
        case R64: if(o.live) put64(out, o.result64()); break;
        case COPY: o.copy(W.proto[op.b]); break;
        case APPEND_SHARED: case APPEND_OWN:
            {
                val::Cell const& c = op.k == APPEND_OWN ? P.cell : W.cell[op.c];
                val::AnyHash h((ref::Alg)op.b, op.x);
                c.t->append((int)op.n, h, c.mem);
                put(out, h.msg.data(), h.msg.size());
                Bytes d = h.digest(); put(out, d.data(), d.size());
                break;
            }
        case DIRECT_SHARED: case DIRECT_OWN:
            {
                val::Cell const& c = op.k == DIRECT_OWN ? P.cell : W.cell[op.c];
                Bytes d = c.t->direct((int)op.n, op.x, c.mem); put(out, d.data(), d.size());
                break;
            }
        case TEXT: { std::string t = op.b ? to_string(W.d64[op.a]) : to_string(W.d20[op.a]); put(out, t.data(), t.size()); break; }
        case CHARS: { char t[132]; if(op.b) { h2::to_chars(W.d64[op.a], t, t + 129); put(out, t, 128); } else { char u[41]; h2::to_chars(W.d20[op.a], u); put(out, u, 40); } break; }
        case STREAM: { vt::Off off; std::ostringstream os; { vt::On on; if(op.b) os << W.d64[op.a]; else os << W.d20[op.a]; } std::string t = os.str(); put(out, t.data(), t.size()); break; }
        case CMP: { D20 c(W.d20[op.a]); put64(out, (W.d20[0] == W.d20[1]) * 4 + (W.d64[0] != W.d64[1]) * 2 + (c == W.d20[op.a])); break; }
        case INTEGRAL: put64(out, h2::get_integral_result<std::uint64_t>(W.d20[op.a]) + h2::get_integral_result<unsigned char>(W.d64[op.a]) * 3u + h2::get_integral_result<long>(std::uint32_t(op.x)) * 5u); break;
        case LOOKUP: { auto it = W.map.find(P.keys[op.b]); put64(out, it == W.map.end() ? -1 : it->second); break; }
        case LOOKUP_SHA: { auto it = W.map2.find(P.keys[op.b]); put64(out, it == W.map2.end() ? -1 : it->second); break; }
        }
    }
}

std::string key(Sim& S) { std::string s; std::size_t n = S.choose(12); for(std::size_t i = 0; i < n; ++i) s += (char)('a' + S.choose(3)); return s; }

void make_prog(Sim& S, Shared const& W, Prog& P, ref::Alg favourite, bool fav)
{
    P.own = S.data(S.length(64, 200) + 1);
    P.cell.gen(S, S.pick(val::types()));
    for(int i = 0; i < 3; ++i) P.keys.push_back(S.choose(2) && !W.keys.empty() ? S.pick(W.keys) : key(S));
    std::size_t n = 1 + S.choose(S.choose(3) ? 4 : 16);
    for(std::size_t i = 0; i < n; ++i)
    {
        Op op; op.a = (int)S.choose(2); op.b = 0; op.c = 0; op.x = 0; op.off = 0; op.n = 0; op.u = S.choose(2);
        static int const kinds[] = { SEED, KEY, KEY, SEED, DEF, UPD, UPD, UPD, UPD, RES, RES, R64, COPY, COPY, APPEND_SHARED, APPEND_SHARED, APPEND_OWN, DIRECT_SHARED, DIRECT_SHARED, DIRECT_OWN, TEXT, CHARS, STREAM, CMP, INTEGRAL, LOOKUP, LOOKUP_SHA };
        op.k = i == 0 ? (int)S.choose(3) : kinds[S.choose(sizeof kinds / sizeof *kinds)];
        std::size_t size = op.u ? W.src.size() : P.own.size();
        switch(op.k)
        {
        case DEF: case SEED: case KEY: op.b = fav && S.choose(8) ? favourite : (ref::Alg)S.choose(ref::NDOC); op.x = S.edgy64(); break;
        case COPY: op.b = (int)S.choose(3); break;
        case APPEND_SHARED: case APPEND_OWN: op.b = (int)(fav ? favourite : S.choose(ref::NDOC)); op.c = (int)S.choose(W.ncell); op.n = S.choose(val::NFLAV); op.x = S.choose(4); break;
        case DIRECT_SHARED: case DIRECT_OWN: op.c = (int)S.choose(W.ncell); op.n = S.choose(val::NDIRECT); op.x = S.choose(4); break;
        case TEXT: case CHARS: case STREAM: op.b = (int)S.choose(2); break;
        case INTEGRAL: op.x = S.edgy64(); break;
        case LOOKUP: case LOOKUP_SHA: op.b = (int)S.choose(3); break;
        default: break;
        }
        if(op.k == KEY || op.k == UPD)
        {
            op.n = S.length(64, size); op.off = S.choose(size - op.n + 1); op.c = (int)S.choose(2);
        }
        P.ops.push_back(op);
    }
    // every session ends with a result
    for(int a = 0; a < 2; ++a) { Op op = Op(); op.k = RES; op.a = a; P.ops.push_back(op); }
}

// the things that all programs share
void make_world(Sim& S, Shared* W, ref::Alg favourite, bool fav)
{
    W->src = S.data(S.length(128, 400) + 1);
    for(int i = 0; i < 3; ++i)
    {
        W->proto[i].dirty(S.dirt());
        ref::Alg a = fav ? favourite : (ref::Alg)S.choose(ref::NDOC);
        switch(S.choose(3)) { case 0: W->proto[i].def(a); break; case 1: W->proto[i].seed(a, S.edgy64()); break; default: W->proto[i].bytes(a, W->src.data(), S.choose(W->src.size())); }
        if(S.choose(2)) W->proto[i].update(W->src.data(), S.choose(W->src.size()), false);
        if(S.choose(4) == 3) W->proto[i].result();
    }
    W->ncell = 1 + (int)S.choose(3);
    for(int i = 0; i < W->ncell; ++i) W->cell[i].gen(S, S.pick(val::types()));
    S.fill(&W->d20[0], 20); W->d20[1] = W->d20[0]; if(S.choose(2)) W->d20[1][S.choose(20)] ^= 1;
    S.fill(&W->d64[0], 64); W->d64[1] = W->d64[0]; if(S.choose(2)) W->d64[1][S.choose(64)] ^= 1;
    std::size_t nk = S.choose(8);
    for(std::size_t i = 0; i < nk; ++i) { W->keys.push_back(key(S)); W->map[W->keys.back()] = (int)i; W->map2[W->keys.back()] = (int)i; }
}
}
